# Regenerates /verif/properties.jsonl from the table below (one-off authoring aid, not used by any check).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None)))
A='pymorphy2/analyzer.py'; T='pymorphy2/tagset.py'; SH='pymorphy2/shapes.py'; U='pymorphy2/utils.py'
BA='pymorphy2/units/by_analogy.py'; BH='pymorphy2/units/by_hyphen.py'; BL='pymorphy2/units/by_lookup.py'
BS='pymorphy2/units/by_shape.py'; AB='pymorphy2/units/abbreviations.py'; UN='pymorphy2/units/unkn.py'
UU='pymorphy2/units/utils.py'; UB='pymorphy2/units/base.py'
C='pymorphy2/opencorpora_dict/compile.py'; W='pymorphy2/opencorpora_dict/wrapper.py'
S='pymorphy2/opencorpora_dict/storage.py'; PP='pymorphy2/opencorpora_dict/preprocess.py'
PX='pymorphy2/opencorpora_dict/parse.py'; D='pymorphy2/dawg.py'

prop('C01','Every token gets at least one analysis and never an exception',
 'For every text string that can be encoded as UTF-8 and is short enough for the interpreter stack, analysing it and tagging it with the default configuration raises no exception. Both return at least one result. A word that no method recognises gets exactly one result, tagged as unknown, whose word and normal form are the lower-cased input.',
 ['inputs','configurations'],'all strings; the default Russian and Ukrainian method lists; any consistent dictionary, with or without stored probabilities',
 'Tests analyse a few hundred Russian words; the claim is over all of Unicode, all hyphen/digit/punctuation mixes and all ways methods can decline.',
 [A,BL,BA,BH,BS,AB,UN,SH],[('method cascade with terminal flags','MorphAnalyzer.parse / tag'),('fallback method','UnknAnalyzer'),('character classification','shapes.py')],
 observe=['MorphAnalyzer.parse','MorphAnalyzer.tag'])
prop('C02','Analyses keep the spelling of the word',
 'The word of every analysis returned for an input equals the lower-cased input, except that single letters may be replaced following the language\'s substitution table (Russian: е may become ё, never the reverse), so the length never changes. This holds for dictionary words, predicted words, hyphenated words, affixed words and non-word tokens alike.',
 ['inputs','configurations'],'all strings and all analyses of each; any consistent dictionary',
 'Tests compare whole analyses for sampled words; affix cutting and re-attaching, suffix substitution and hyphen joining are index arithmetic over arbitrary strings.',
 [A,BL,BA,BH,BS,AB,UN,D],[('fixed spelling from the lookup','DictionaryAnalyzer.parse'),('prefix/suffix re-attachment','by_analogy.py, by_hyphen.py')],
 observe=['Parse.word'])
prop('C03','Tagging and analysing agree',
 'For every word, the set of tags returned by tagging it is exactly the set of tags of its analyses.',
 ['inputs','configurations'],'all strings; default method lists; any consistent dictionary',
 'The two code paths are separate per method (own lookups, own duplicate suppression, own stop conditions); tests compare them on a short word list.',
 [A,BL,BA,BH,BS,AB,UN,UB,UU],[('separate tag() implementations','all analyzer units'),('duplicate suppression','units/utils.py')],
 observe=['MorphAnalyzer.tag','MorphAnalyzer.parse'])
prop('C04','Scores are normalised estimates or the stored P(tag|word)',
 'Probability estimation never adds, drops or alters analyses apart from the score. If the dictionary stores no probability for any of a word\'s analyses, their order is kept and their raw scores are multiplied by one common factor so that they are positive and add up to 1 (up to float rounding); otherwise the score of each analysis is exactly the stored probability of its tag for the lower-cased word and analyses come in non-increasing score order, equal scores keeping their order. Tagging orders tags in the same way by stored probability.',
 ['inputs','histories'],'all words, all lists of analyses with positive raw scores, all stored probability tables',
 'Tests look at the scores of a handful of words; normalisation, stability of order and exact lookup are claims over all lists.',
 [A,D,BL,BA,BH],[('score rewriting','ProbabilityEstimator.apply_to_parses / apply_to_tags'),('stored probabilities','ConditionalProbDistDAWG.prob')],
 observe=['Parse.score','order of MorphAnalyzer.parse / tag'])
prop('C05','Prediction yields open-class analyses only, within its length limits',
 'An analysis or tag obtained by prediction - cutting a known prefix, guessing an unknown prefix, or looking at the ending - never belongs to a closed class (numeral, pronoun, pronominal adjective, predicative, preposition, conjunction, particle, interjection). A known prefix is cut only if at least three letters remain, a guessed prefix has one to five letters and leaves a dictionary word of at least three letters, and ending-based prediction is used only for words of at least four letters.',
 ['inputs','configurations'],'all words, all dictionaries and prefix lists, analysing and tagging alike',
 'Whether a closed-class word hides behind a prefix or ending depends on the dictionary and on the exact split; tests try a few words.',
 [BA,U,T],[('productivity filter','tag.is_productive'),('split limits','word_splits, possible_splits, min_word_length')],
 observe=['MorphAnalyzer.parse','MorphAnalyzer.tag'])
prop('C06','Affixed analyses are the remainder\'s analyses with the affix put back',
 'When a word is analysed by detaching a known prefix, a guessed prefix, a hyphenated particle or an invariable left part, each resulting analysis is an analysis of the remaining word with the affix re-attached both to its word and to its normal form, the tag unchanged, and a score that is the remainder\'s score times the method\'s constant. Conversely every admissible analysis of the remainder gives such an analysis, unless one with the same word, tag and paradigm was already produced. Admissible means open-class for prefixes, known part of speech for hyphenated words, and anything for particles.',
 ['inputs','configurations'],'all words, all prefix/particle lists, all analyses of the remainder',
 'Tests list expected parses for a dozen prefixed or hyphenated words.',
 [BA,BH,UU],[('affix re-attachment','KnownPrefixAnalyzer.parse, UnknownPrefixAnalyzer.parse, HyphenSeparatedParticleAnalyzer.parse, HyphenatedWordsAnalyzer.parse'),('duplicate suppression','add_parse_if_not_seen')],
 observe=['MorphAnalyzer.parse'])
prop('C07','Lexemes, normal forms and analyses are coherent',
 'For every analysis returned (compounds whose both hyphenated parts inflect excepted), its lexeme is non-empty, contains a form with the analysed word and tag, all its forms have the analysis\'s normal form, and the lexeme computed from any of these forms consists of the same forms. Its normalised analysis is the first form of the lexeme, and the word of that form is the normal form.',
 ['inputs','histories'],'all words, all analyses of each, all consistent dictionaries, arbitrarily nested affixes',
 'Tests spell out a few lexemes; the claim covers every paradigm, every form index, every nesting of prefix, particle and hyphen methods, and going from form to form repeatedly.',
 [BL,UB,BA,BH,AB,BS,UN,UU,W,A],[('stem/prefix/suffix arithmetic','Dictionary.build_stem / build_normal_form / build_paradigm_info'),('undecorate-delegate-decorate','AnalogyAnalizerUnit, units/utils.py')],
 observe=['Parse.lexeme','Parse.normalized','Parse.normal_form'])
prop('C08','Inflection returns the closest matching form of the lexeme',
 'Inflecting an analysis with a set of known grammemes returns nothing exactly when no form of its lexeme contains them all, even after rare cases are replaced by their common counterparts. Otherwise it returns a form of that lexeme which contains all requested grammemes - or, only if no form does, all of them after the rare-case replacement - and no other matching form is more similar to the grammemes the form should have (own plus requested, minus those incompatible with the requested ones), earlier forms winning ties.',
 ['inputs'],'all analyses, all lexemes, all sets of requested grammemes',
 'Tests inflect some dozens of words; which candidate wins depends on the whole lexeme and grammeme tables.',
 [A,T],[('candidate filter and ranking','MorphAnalyzer._inflect'),('rare case table','OpencorporaTag.fix_rare_cases'),('incompatible grammemes','OpencorporaTag.updated_grammemes')],
 observe=['Parse.inflect'])
prop('C09','Numeral agreement follows the counting rule for every integer',
 'The grammemes required to agree with an integer depend only on its last two decimal digits, not on its sign: numbers ending in 1 but not 11 ask for the singular, numbers ending in 2, 3, 4 but not 12-14 are paucal, all others are plural. Nouns in the nominative or accusative get singular nominative (accusative for an accusative noun), singular genitive, plural genitive respectively, and nouns in another case keep that case in the singular or plural; full adjectives and participles get singular nominative (accusative unless nominative) for 1, plural nominative if feminine and paucal, and plural genitive otherwise. Words of any other part of speech get no requirement.',
 ['inputs'],'all integers (any size or sign) and all tags',
 'Tests use about twenty number/word pairs; boundary values such as 11-14, 111-114, 1011 and negative numbers for every part of speech, case and gender are unbounded.',
 [T,A],[('agreement table','OpencorporaTag.numeral_agreement_grammemes')],observe=['OpencorporaTag.numeral_agreement_grammemes','Parse.make_agree_with_number'])
prop('C10','Tags behave as sequences of known grammemes',
 'A tag built from a string holds exactly the names separated by commas and by its first space, in order; building fails with ValueError if any of them is unknown. Two tags are equal, hash alike, and order like their name sequences, and the length is the number of names. Testing a grammeme or a set of grammemes for membership is true exactly if all are in the tag, raises ValueError exactly if it is not true and some tested grammeme is unknown, and each category attribute is the tag\'s grammeme of this category or None.',
 ['inputs','configurations'],'all tag strings, all sets of known grammemes, all tested grammemes',
 'Tests build a handful of tags.',
 [T],[('tag construction','OpencorporaTag.__init__'),('comparisons','__eq__/__ne__/__lt__/__gt__/__hash__/__len__'),('membership','__contains__'),('category descriptors','_select_grammeme_from')],
 observe=['OpencorporaTag'])
prop('C11','Grammeme updating honours the dictionary\'s incompatibilities',
 'Updating a tag with required grammemes gives exactly its own grammemes plus the required ones, without any grammeme incompatible with a required one, and raises ValueError if a required grammeme is unknown; the tag itself is unchanged. After loading, a grammeme\'s incompatible set consists of the other children and grandchildren of its parent in the dictionary\'s grammeme hierarchy, plus - for plural - all genders, never of itself, and the known grammemes are exactly those declared or added. Replacing rare cases maps each rare case to its common case and leaves every other grammeme as is.',
 ['inputs','configurations'],'all tags, all required sets, all grammeme hierarchies',
 'Tests exercise the hierarchy of one dictionary on a few tags.',
 [T],[('incompatibility tables','OpencorporaTag._init_grammemes'),('update','OpencorporaTag.updated_grammemes'),('rare cases','RARE_CASES, fix_rare_cases')],observe=['OpencorporaTag.updated_grammemes','OpencorporaTag.fix_rare_cases'])
prop('C12','Latin and Cyrillic tag names translate one to one',
 'Translating a tag, or a string of names separated by commas and whitespace, to Cyrillic or back maps every name independently through the dictionary\'s alias table, leaves unknown names untouched and keeps the comma structure, whitespace runs becoming one space. With distinct aliases, translating there and back restores the string\'s names. Adding a grammeme makes its two names translate to each other, unless it is already known and overwriting was not requested, which changes nothing.',
 ['inputs','configurations'],'all strings, all alias tables',
 'Tests translate a few tags.',
 [T],[('token-wise translation','_translate_tag, _translate_comma_separated'),('alias tables','add_grammemes_to_known')],observe=['lat2cyr','cyr2lat','OpencorporaTag.cyr_repr','OpencorporaTag.grammemes_cyr'])
prop('C13','Compiling a dictionary and decoding it loses nothing',
 'For every list of lexemes, compiling it and decoding the compiled data gives back every lexeme: each form is stored under its word with a paradigm and position that decode to its own tag, to the lexeme\'s first form as normal form, and to the whole lexeme in order. Different lexemes share a paradigm only if they have the same endings, prefixes and tags, and paradigm prefixes come only from the language\'s list.',
 ['inputs','configurations'],'all lists of non-empty lexemes (within the 16-bit ids of the format) and all prefix lists containing the empty prefix',
 'Tests compile one toy dictionary; stem extraction, prefix handling and the flattened three-part paradigm layout must match the reader for every lexeme shape.',
 [C,W,U],[('stem and paradigm extraction','_to_paradigm, longest_common_substring'),('flattened layout','_linearized_paradigm'),('reader','Dictionary.build_*')],observe=['compile_parsed_dict','Dictionary'])
prop('C14','Known-word lookup is exact',
 'A word is reported as known in strict mode exactly if its lower-cased form is a dictionary form, and otherwise exactly if some spelling obtained by the substitution table (е to ё) is. The analyses of a known word are exactly the dictionary entries of all those spellings, each with its tag and normal form (plus the initials analyses if it is a single capital letter), with no predicted analysis among them. Enumerating dictionary words with a prefix yields exactly the entries starting with it, and each of them is an analysis of its own word.',
 ['inputs','configurations'],'all words, all dictionaries, all prefixes',
 'Tests look up a few words; the claim is over every dictionary entry and every non-entry.',
 [W,BL,A,D],[('lookup with substitution','DictionaryAnalyzer.parse, Dictionary.word_is_known'),('terminal group','MorphAnalyzer.parse'),('enumeration','Dictionary.iter_known_words, MorphAnalyzer.iter_known_word_parses')],observe=['MorphAnalyzer.word_is_known','MorphAnalyzer.parse','MorphAnalyzer.iter_known_word_parses'])
prop('C15','Saved dictionaries load back unchanged and foreign formats are refused',
 'Saving a compiled dictionary and loading the folder (in the default tag format) gives back the same tag table, suffixes, paradigms, paradigm prefixes, grammemes, word data and prediction data, and the language and source recorded. A folder whose declared format has another major version, or no valid version, is refused with ValueError; any minor version of the supported major one is accepted.',
 ['inputs','configurations'],'all compiled dictionaries within the format\'s 16-bit limits, all version strings',
 'Tests load one bundled dictionary and one toy dictionary.',
 [S],[('writer','save_compiled_dict, write_meta'),('reader','load_dict, _load_paradigms, load_meta'),('version gate','_assert_format_is_compatible')],observe=['save_compiled_dict','load_dict'])
prop('C16','Tag simplification only merges spellings and redundant cases',
 'Simplifying the tags of a parsed dictionary leaves the lexemes, their order and their word forms as they were and gives each form a tag with the same set of grammemes, except that the redundant cases gen1, acc1, loc1 become gent, accs, loct and none of them remains. Tags that are different spellings of one grammeme set are all replaced by the most frequent one when the spellings are ambiguous (by default: unless they all differ in where the space is). Dropping unsupported analyses removes exactly the forms tagged as initials.',
 ['inputs'],'all parsed dictionaries',
 'Tests simplify a toy dictionary with a handful of tags.',
 [PP],[('spelling statistics','_get_tag_spellings, _get_duplicate_tag_replaces'),('rewriting','simplify_tags, drop_unsupported_parses')],observe=['simplify_tags','drop_unsupported_parses'])
prop('C17','Joining linked lexemes keeps every form once',
 'Joining lexemes along links without cycles keeps every (form, tag) pair of the source exactly once. When no lexeme is the target of two allowed links, lexemes end up together exactly if they are connected through links of the allowed types, in whatever order the links come (excluded: name-patronymic, full-contracted, cardinal-ordinal, textual-numeric), the forms of the lexeme that nothing links to come first, and resulting lexemes are non-empty and ordered by the numeric id they are stored under.',
 ['inputs'],'all lexeme tables and all acyclic link lists in which every lexeme is linked to at most once, in any order of links',
 'Tests join three or four lexemes in one link order.',
 [C],[('moves with path following','_join_lexemes')],observe=['_join_lexemes','compile_parsed_dict'])
prop('C18','Prediction records reflect the dictionary\'s counts',
 'Every ending-prediction record of a compiled dictionary stores an ending no longer than the configured maximum that ends at least the configured number of entries of popular paradigms, and its count is the number of dictionary entries with that ending, paradigm and form (an entry counts for the endings that include its whole form suffix, and only if it has a stem). It belongs to the table of the form\'s own paradigm prefix, its paradigm covers at least the configured number of lexemes, and for each ending and part of speech exactly the records with the greatest count are kept.',
 ['inputs','configurations'],'all dictionaries and all compile options',
 'Tests compare one toy dictionary\'s records.',
 [C,U],[('counting','_suffixes_prediction_data, _popular_keys'),('selection','_get_suffixes_dawg_data, largest_elements')],observe=['_suffixes_prediction_data','largest_elements'])
prop('C19','The list of normal forms is the distinct normal forms of the analyses',
 'For every word, the list of normal forms contains exactly the normal forms of its analyses, each once, in the order in which the analyses first show them.',
 ['inputs'],'all words; every list of analyses',
 'Tests compare a few words.',
 [A],[('ordered duplicate suppression','MorphAnalyzer.normal_forms')],observe=['MorphAnalyzer.normal_forms'])
prop('C20','Tokenisation keeps all text except whitespace',
 'Concatenating the tokens of a text gives the text with its whitespace characters removed, in order. No token is empty or contains whitespace, runs of letters, digits, underscores and hyphens stay together as one token, and every other character is a token of its own.',
 ['inputs'],'all texts',
 'Tests tokenise a few sentences.',
 ['pymorphy2/tokenizers.py'],[('splitting regex and filter','simple_word_tokenize')],observe=['simple_word_tokenize'])
prop('C21','Restoring capitalisation changes letter case only',
 'Copying the capitalisation of an example to a word gives the word lower-, upper- or title-cased as the example is. If the example has hyphens this is done for each hyphen-separated part by the part in the same place, and parts beyond the example\'s are lower-cased; nothing else about the word changes.',
 ['inputs'],'all pairs of strings',
 'Tests list a dozen pairs.',
 [SH],[('part-wise recasing','restore_capitalization, _make_the_same_case')],observe=['restore_capitalization'])
prop('C22','Token shapes are classified by their definition for every string',
 'A token is Latin exactly if it has a letter and all its letters are Latin, punctuation exactly if it has a punctuation character and otherwise only punctuation and whitespace, and a Roman number exactly if, ignoring case, it is a Roman numeral in the usual notation of 1 to 4999. Tokens that Python reads as integers are tagged as integers, others it reads as floats (a comma counting as the point) as reals. Classifying never raises and does not depend on what was classified before.',
 ['inputs','histories'],'all strings over all of Unicode, any history of earlier calls',
 'Tests try a few ASCII tokens.',
 [SH,BS],[('character tests','is_latin, is_latin_char, is_punctuation'),('regex','ROMAN_NUMBERS_RE'),('number parsing','NumberAnalyzer.check_shape')],observe=['is_latin','is_punctuation','is_roman_number','MorphAnalyzer.tag'])
prop('C23','Prefix matching finds exactly the configured prefixes',
 'For every set of non-empty prefixes and every word, the matcher returns exactly those prefixes of the set that the word starts with, each once, and reports the word as prefixed exactly if there is one. The accelerated and the pure-Python matcher give the same answers.',
 ['inputs','configurations'],'all prefix sets, all words, both implementations',
 'Tests compare the matchers on one random sample.',
 [D],[('pure-Python matcher','PythonPrefixMatcher'),('DAWG matcher','DawgPrefixMatcher')],observe=['PrefixMatcher.prefixes','PrefixMatcher.is_prefixed'])
prop('C24','Command-line output depends on the tokens only',
 'Parsing a text from the command line writes one line per token in input order. The line depends only on the token, the requested fields and the threshold - whatever the cache size, and however often or after what the token occurs - and lists exactly the analyses (or tags) whose score reaches the threshold, or the normal forms whose summed score does, greatest first.',
 ['inputs','histories','configurations'],'all token streams, cache sizes, option combinations and thresholds',
 'Tests run a few command lines.',
 ['pymorphy2/cli.py','pymorphy2/cache.py'],[('formatter variants','_TokenParserFormatter'),('memoisation','memoized_with_single_argument, lru_cache'),('token stream','_iter_tokens_*')],observe=['cli.parse output'])
prop('C25','Copying through pickle keeps configuration and meaning',
 'An analyzer restored from a pickle has the same dictionary path, language, result type, analysis methods with their parameters, probability estimation and letter substitutions as the original, so it analyses every word in the same way. A tag restored from a pickle equals the original and prints the same, and duplicating an analysis method keeps its parameters.',
 ['configurations','histories'],'all constructor argument combinations, all tags, all methods\' parameters',
 'Tests pickle the default analyzer only.',
 [A,T,UB],[('reconstruction arguments','MorphAnalyzer.__reduce__, OpencorporaTag.__reduce__'),('unit cloning','BaseAnalyzerUnit.clone')],observe=['pickle.loads(pickle.dumps(x))'])
prop('C26','Analysis has no memory and no side effects',
 'Analysing, tagging, inflecting, normalising and looking up words never changes the analyzer, its dictionary or its analysis methods. The result depends on the word and configuration only, not on earlier calls or other threads, and changing a returned list does not affect later results.',
 ['histories','schedules','inputs'],'all sequences and interleavings of calls, all words',
 'Tests compare single-threaded and multi-threaded results for a few words.',
 [A,BL,BA,BH,BS,AB,UN,SH,T],[('no writes to shared state; fresh result lists','analyzer units, MorphAnalyzer'),('write-once tag caches','OpencorporaTag')],observe=['MorphAnalyzer.parse','MorphAnalyzer.tag'])
prop('C27','The dictionary and language used follow the documented precedence',
 'An explicit path always wins, then the environment variable, then the installed dictionary of the requested language; asking for a language without an installed dictionary raises ValueError; with neither a path nor a language given, Russian is requested. The analyzer\'s language is the requested one, else the one its dictionary declares, else Russian, and a mismatch between requested and declared language is accepted with a warning.',
 ['configurations'],'all combinations of path, language, environment and installed dictionaries',
 'Tests cover the default and one or two combinations.',
 [A],[('path choice','choose_dictionary_path, lang_dict_path'),('language choice','choose_language')],observe=['MorphAnalyzer.choose_dictionary_path','MorphAnalyzer.choose_language'])
prop('C28','XML import keeps every lexeme, link and grammeme',
 'Importing a dictionary XML file yields, for every lemma with forms, its forms in order, each lower-cased and tagged with the lemma\'s grammemes followed by its own (a lemma without forms, or having a form without any grammeme, becomes an empty lexeme). All links and all grammeme declarations are kept in document order.',
 ['inputs'],'all well-formed dictionary XML documents',
 'Tests import one toy file.',
 [PX],[('element handlers','parse_opencorpora_xml, _word_forms_from_xml_elem')],observe=['parse_opencorpora_xml'])
prop('C29','Initials get all gender and case analyses and keep their gender',
 'A token that is one of the language\'s capital initial letters gets, besides its other analyses, one analysis per gender and case as a first name and one as a patronymic, each with the low fixed initial score and the lower-cased letter as word and normal form; any other token gets none. The lexeme of a first-name initial contains all cases of its own gender only and normalises within it, that of a patronymic contains both genders.',
 ['inputs','configurations'],'all tokens, all letter sets, all score settings',
 'Tests check a few letters.',
 [AB],[('tag tables','_InitialsAnalyzer._get_gender_case_tags'),('lexemes','get_lexeme, normalized')],observe=['MorphAnalyzer.parse','Parse.lexeme'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
