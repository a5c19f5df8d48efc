#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the statements stay readable in review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
V='core/src/version/version.rs'; CO='core/src/version/comp_op.rs'; VP='core/src/version/version_part.rs'
PE='core/src/version/custom_parts/pep440.rs'; CP='core/src/version/parsers/conda.rs'
MA='core/src/version/matching.rs'; ST='core/src/version/spec_trees.rs'; RE='core/src/repodata/repodata.rs'
PY='python/src/python_interface.rs'
HOOK='cfg(ronda_verif) re-export of the spec trait and the single-spec type in core/src/lib.rs'

p('C01','Version parsing accepts exactly the well-formed texts and never panics',
 "Parsing any text as a version never panics. It is rejected exactly when it contains more than one '!', or the text before its one '!' is not an optionally signed decimal integer between -32768 and 32767, or it contains more than one '+' after the '!' (anywhere, if there is no '!'); every other text, including the empty one, is accepted.",
 ['inputs'],'all Unicode texts','the tests parse a fixed table of about 70 well-formed versions; acceptance and absence of panics must hold for every text',
 [CP,V],[('conda_parser','split on "!" and "+", epoch parse, error returns'),('Version::from_str / Version::parse','pass the parser result on')],
 ['str::parse::<Version>()','Version::parse','conda_parser'])
p('C02','A parsed version holds exactly the components its text spells',
 "The components of a parsed version are, in order: the epoch number if the text has a '!'; then, for the text between that and any '+', split at every '.', '-' and '_', one component per maximal run of (Unicode decimal) digits or of non-digits, a number when the run is ASCII digits with value at most 2147483647 and otherwise a text component holding exactly that run; then the text after '+' as a local label if it is not empty. The empty text has the single 'empty' component; no component is dropped, merged, reordered or invented.",
 ['inputs'],'all accepted texts','the tests only count components (and only of the table entries); the value and order of every component of every text is the property',
 [CP,PE],[('conda_parser','the split and the digit/non-digit tokenizer'),('PEP440String::from','keeps the text unchanged')],
 ['Version::parts','conda_parser'])
p('C03','A version reports back exactly its text and its components',
 "A version built from a text with any parser reports exactly that text (as string and when displayed) and exactly the components the parser returned, in order: the count is their number, component i is the i-th one for every i below the count, and any other index is an error. When the parser fails, its error is returned unchanged and no version is made.",
 ['inputs'],'all texts, all parsers, all indices','tests use the standard parser on table entries and probe only the indices in range plus one',
 [V],[('Version::parse, as_str, parts, part, part_count, Display','store and return')],
 ['Version::as_str','Version::part','Version::parts','Version::part_count','Version::parse'])
p('C04','Versions compare component by component, missing components counting as zero',
 "Comparing two versions gives the order of the first position where their components differ, and 'equal' if there is none, where up to the end of the longer version a missing component counts as the zero of the kind the other version has there (0 for numbers and epochs, empty text for texts, empty for empty). In particular 1.0.1 > 1, 1.0.0 = 1 and 1.0.post1 > 1.",
 ['inputs'],'all pairs of versions, of any length and any mix of component kinds','a table of about 60 pairs samples it; the loop must be right for every length and every position of the first difference',
 [V,VP],[('Version::compare_iter','the comparison loop'),('VersionPart::get_empty','zero of each kind')],
 ['Version::compare_version','Version::compare_str','PartialOrd and PartialEq of Version'])
p('C05','Version comparison is a consistent order',
 "Every version equals itself; comparing b with a gives the reverse of comparing a with b; two versions are equal exactly when neither is less. Comparison is transitive (a<=b and b<=c give a<=c, strictly if either is strict) whenever at each position the components that the three versions have there are all of one kind or all three versions have one.",
 ['inputs'],'all pairs and triples of versions','no test compares more than two versions, and order laws quantify over all triples',
 [V,VP,PE],[('Version::compare_iter','lexicographic comparison with padding'),('VersionPart / PEP440String partial_cmp','component order')],
 ['Version::compare_version','PartialOrd and PartialEq of Version'])
p('C06','Every comparison operator agrees with the version order',
 "For all versions a and b: a==b, a!=b, a<b, a<=b, a>b, a>=b hold, whether asked through the operator value or the native comparison operators, exactly as the one comparison result (less, equal or greater) says; testing with the inverted operator gives the opposite answer, and testing with the flipped operator and swapped versions gives the same answer. Starts-with and its negation are likewise always opposite.",
 ['inputs'],'all pairs of versions, all operators except compatible/incompatible','tests try the listed pairs with the listed operators only',
 [V,CO],[('Version::compare_to_version','operator table'),('PartialOrd/PartialEq for Version','native operators'),('CompOp::ord','comparison result to Ordering')],
 ['Version::compare_to_version','Version::compare_to_str','<, <=, >, >=, ==, != on Version'])
p('C07','Text components order as post > release > ordinary text > dev',
 "Between two text components: one containing 'post' in any letter case is greater than any that does not, and all of those are equal; otherwise the empty text is greater than any non-empty one; otherwise one containing 'dev' in any letter case is less than any that does not, and all of those are equal; otherwise they compare as case-insensitive text. Equality of two text components is exactly 'neither is less'.",
 ['inputs'],'all pairs of texts','five fixed pairs are tested',
 [PE],[('compare_pep440_str','rules in priority order'),('PEP440String eq/partial_cmp','use it')],
 ['PartialOrd and PartialEq of text components, directly and through Version comparison'],HOOK)
p('C08','Components of one kind order by value, different kinds by a fixed ranking',
 "Two components of the same kind compare by value: epochs and numbers numerically, local labels by exact (case-sensitive) text order, texts by their own rules, and empties are equal. Components of different kinds always compare as epoch > number > local label > text > empty, whatever their values; equality of components is exactly 'compares as equal', and the zero of each kind is 0, 0, the empty label, the empty text and empty.",
 ['inputs'],'all pairs of components','two or three fixed pairs are tested',
 [VP],[('VersionPart partial_cmp / eq','kind and value comparison'),('VersionPart::get_empty','zero of each kind')],
 ['PartialOrd and PartialEq of VersionPart'])
p('C09','Starts-with holds exactly when the other version is a component prefix',
 "A version starts with another exactly when the other has no more components and each of them equals (as components compare) the component at the same position; nothing is padded. So every version starts with itself and with the version whose components are any prefix of its own.",
 ['inputs'],'all pairs of versions','a handful of pairs is tested',
 [V],[('Version::startswith','the prefix loop'),('Version::compare_to_version','StartsWith / NotStartsWith')],
 ['Version::startswith','Version::compare_to_version','specs ending in *'])
p('C10','Operator signs, names and relations are consistent and unknown ones rejected',
 "Looking up an operator by sign, ignoring surrounding whitespace, finds exactly the ten documented signs and by name, ignoring surrounding whitespace and letter case, exactly the ten names; each operator's own sign and name find it again, and every other text is an error. Inverting is the logical negation and undoes itself, opposite and flip undo themselves and reverse the direction of <, <=, >, >= (opposite also exchanges the members of each other pair, flip leaves them), the ordering conversion maps exactly ==, <, > and back, and the factor is the sign of the direction.",
 ['inputs'],'all texts and all ten operators','each table is sampled on a few texts; rejection of every other text and the laws over all operators are not',
 [CO],[('CompOp::from_sign, from_name, sign, name','tables'),('invert/opposite/flip and as_*','relations'),('from_ord, ord, factor','conversions')],
 ['CompOp methods'])
p('C12','Parsing a single spec never panics and rejects exactly the malformed ones',
 "Turning any text into a single version spec never panics. It is an error exactly when the text has a leading '^' without a trailing '$' or the reverse, or is an invalid regular expression between them; or begins with one of = < > ! ~ and is not one of the operators = == != < <= > >= ~= (the longest that fits) followed by a non-empty, whitespace-free version text that parses (with a trailing '.*' removed, which '~=' does not allow); or is a glob or plain version whose version text or pattern does not parse.",
 ['inputs'],'all Unicode texts','tests try about 15 specs',
 [MA,ST,CO,CP],[('get_matcher','classification by first/last character and *'),('create_match_enum_from_operator_str','operator specs'),('VersionSpec try_from','entry')],
 ['conversion of a text to a single spec'],HOOK)
p('C13','A single spec matches exactly the versions its notation says',
 "An accepted spec matches a version exactly when: '*' - always; a plain version - it compares equal; an operator and a version - the comparison holds (with '.*' after '!=' meaning does-not-start-with, and ignored otherwise); a version followed by '*' or '.*' - it starts with that version; a glob with an inner '*' or a '^...$' regular expression - its text matches the pattern ('.' and '+' literal in globs); otherwise, for a text containing '@', its text is identical. Operators '~=' and '!~=' are not covered.",
 ['inputs'],'all accepted specs and all versions','tests try a dozen spec/version pairs',
 [MA,V,ST],[('get_matcher / create_match_enum_from_operator_str','spec to matcher'),('MatchFn for MatchOperator, MatchRegex, MatchAlways, MatchExact, MatchNever','evaluation')],
 ['test_match, test_match_version of a spec'],HOOK)
p('C14','A spec reports its own text and is exact only when it pins one version',
 "A spec built from a text reports exactly that text. It is exact when the text is a plain version, '==' followed by a version, or a text with '@' and no '*' that is not an operator or regular-expression spec, and in no other case; its exact value is its text when it is exact and absent otherwise, and a constraint tree is never exact and reports its rendered text.",
 ['inputs'],'all accepted specs and all constraint trees','tests look at the flag of a few specs',
 [MA,ST],[('get_matcher','second result'),('Spec for VersionSpec / ConstraintTree','get_spec, raw_value, is_exact, exact_value')],
 ['is_exact, exact_value, raw_value, get_spec'],HOOK)
p('C15','A constraint tree matches as the and/or of its parts',
 "A constraint tree joined by 'and' matches a version exactly when every part matches it, and one joined by 'or' (or by nothing) exactly when at least one part does, for any number of parts and any nesting; matching by version text gives the same answer as matching by the version parsed from it, and matching changes nothing.",
 ['inputs'],'all trees of any depth and width, all versions','tests evaluate a few flat trees',
 [ST],[('Spec for ConstraintTree::test_match_version','all/any over the parts'),('Spec for VersionSpecOrConstraintTree','dispatch')],
 ['test_match, test_match_version of a tree'],HOOK)
p('C16','A compound spec expression is accepted exactly when it is well formed',
 "Parsing a compound spec expression never panics and succeeds exactly when the text is a sequence of operands joined by ',' or '|', an operand being a valid single spec or a well-formed expression in balanced parentheses; missing or extra operands, operators or parentheses, and any invalid spec, are errors. Whitespace around specs, operators and parentheses is ignored, and text from a '^' that starts an operand to the next '$' is one spec.",
 ['inputs'],'all texts','tests try a dozen well-formed and half a dozen malformed expressions',
 [ST],[('_treeify','tokenizer and operand/operator alternation'),('_apply_ops','operator application')],
 ['treeify'])
p('C17','A parsed compound spec means what it says: comma binds tighter than bar',
 "The constraint tree obtained from an expression matches a version exactly when the expression does with ',' as 'and', '|' as 'or', ',' binding tighter than '|' and parentheses overriding; its specs are those of the expression, all of them, in order. Runs of the same operator, also across parentheses, form one flat tree node: no part of a parsed tree is a tree with the same operator as its parent or with fewer than two parts.",
 ['inputs'],'all well-formed expressions and all versions','tests compare a few expressions with a fixed tree',
 [ST],[('_treeify, _apply_ops','precedence stack and fusing')],
 ['treeify','test_match of the result'],HOOK)
p('C18','Rendering a constraint tree keeps its meaning',
 "Rendering a tree joins the renderings of its parts, in order, by ',' for 'and' and by '|' otherwise, putting every nested tree with at least two parts in parentheses; a single-spec tree renders as that spec, and a tree with no parts, or with a lone nested tree, is an error. For a tree that parsing can produce, parsing the rendering again gives an equal tree.",
 ['inputs'],'all trees; all parseable expressions for the round trip','tests render a few trees',
 [ST],[('ConstraintTree::combine','joining and parenthesising'),('untreeify','entry'),('treeify','inverse')],
 ['untreeify','get_spec of a tree','treeify'])
p('C19','Equality of specs and trees is structural',
 "Two specs are equal exactly when their texts are; two trees exactly when they have the same joining operator and the same number of parts, equal one by one in order; a spec never equals a tree. Nothing is ignored, at any nesting depth.",
 ['inputs'],'all pairs of specs and trees','tests compare equal trees only',
 [ST],[('PartialEq for ConstraintTree, VersionSpecOrConstraintTree, VersionSpec','structural comparison')],
 ['== and != on specs and trees'],HOOK)
p('C20','Loading package metadata is total and keeps every record faithful',
 "Loading a repository metadata file either fails with an error - when the file cannot be read or is not UTF-8, the JSON is malformed, a required field is missing, of the wrong type or out of range, or a version text does not parse - or yields every package of both package tables under its key with exactly the field values of the file and the version parsed from its decoded text. It never panics.",
 ['inputs','fault_sequences'],'all file contents, and unreadable paths','one good file is loaded and one field looked at',
 [RE,CP],[('read_repodata','file and JSON errors passed on'),('deserialize_json_str_to_version','version field'),('serde derives','field mapping')],
 ['read_repodata'])
p('C21','Python comparisons agree with the library order',
 "In Python, each of ==, !=, <, <=, >, >= between two versions gives exactly what the library's comparison with that operator and the same operand order gives; startswith agrees with the library's, repr is the version's text, and constructing from a text that does not parse raises ValueError instead of aborting.",
 ['inputs'],'all pairs of version texts, all six operators','there is no Python-level test',
 [PY],[('py_cmp_to_ronda_cmp','operator mapping'),('RustyVersion __richcmp__, startswith, __repr__, __new__','delegation')],
 ['RustyVersion in Python'])
p('C23','A spec text or a list of specs becomes the spec or tree it lists',
 "A text containing any of ( ) | , ^ $ is parsed as a compound expression and any other as a single spec. A list becomes a tree whose operator is given by its first item, ',' for 'and' or '|' for 'or', and whose parts are exactly the remaining items, each parsed that way, in order; an empty list, any other first item, or any item that does not parse is an error, never a panic.",
 ['inputs'],'all texts and all lists of texts','tests build a few lists of two or three valid items',
 [ST],[('VersionSpecOrConstraintTree::try_from','choice of the parser'),('ConstraintTree::try_from(Vec<&str>)','list to tree'),('Combinator::from','operator text')],
 ['ConstraintTree::try_from','VersionSpecOrConstraintTree::try_from'])
p('C24','Printing any version, spec or tree terminates and shows its content',
 "Displaying or debug-printing any version, component, spec or constraint tree terminates without a panic: a version displays as its text and debug-prints as the list of its components, each shown by kind and value; a spec prints as its quoted text and a tree as its operator with its parts, or as its quoted rendering.",
 ['inputs'],'all versions, specs and renderable trees','nothing prints specs or trees in the tests',
 [V,VP,ST],[('Display/Debug implementations','delegate to text, parts or rendering')],
 ['format! with {}, {:?}, {:#?}'],HOOK)
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
