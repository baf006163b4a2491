import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
E="src/nlu_engine.rs"
p("C01","Every returned slot locates text of the input and is declared for its intent",
"For every engine, text and filter, each slot returned by parsing, slot extraction or an alternative has a character range inside the input and a raw value equal to the input's characters at that range. Its slot name is declared for the intent it is returned for, with that slot's entity. The slots of one result do not overlap and are in increasing order of position.",
["inputs","configurations"],"all trained engines, all input texts (any Unicode), all intent filters, all parsers that may have produced the slots",
"The tests check a handful of ASCII sentences against one engine; positions go through several character/byte mappings (lower-casing, placeholders, tokens, stop words) which only differ on other texts.",
[E,"src/slot_utils.rs","src/utils.rs","src/intent_parser/deterministic_intent_parser.rs","src/intent_parser/lookup_intent_parser.rs","src/slot_filler/crf_utils.rs","src/entity_parser/custom_entity_parser.rs"],
[("resolve_slots",E),("replace_entities range mapping","src/utils.rs"),("tags_to_slots","src/slot_filler/crf_utils.rs"),("compute_char_shifts","src/entity_parser/custom_entity_parser.rs")],
["SnipsNluEngine::parse_with_alternatives","SnipsNluEngine::get_slots_with_alternatives"])
p("C02","Intent filters are honoured everywhere",
"With a whitelist and/or a blacklist, parsing only ever returns (as its top intent or as an alternative) no intent, or an intent that is in the whitelist and not in the blacklist, and a name that is not an intent of the engine in either list is an error. A blacklist behaves as the whitelist of all the other intents, a whitelist of all the intents as no filter, and a filter that leaves no intent gives no intent and no slot.",
["inputs","configurations"],"all engines (any number and kind of parsers and of intents, including a single one), texts, whitelists and blacklists",
"The tests try one or two lists on one engine; every parser filters on its own and each has shortcuts (single intent, empty text, no features) that skip or apply the filter differently.",
[E,"src/intent_classifier/log_reg_intent_classifier.rs","src/intent_parser/deterministic_intent_parser.rs","src/intent_parser/lookup_intent_parser.rs"],
[("get_intents_whitelist",E),("get_intents_with_whitelist","src/intent_classifier/log_reg_intent_classifier.rs"),("parse_top_intents","src/intent_parser/*.rs")],
["SnipsNluEngine::parse","SnipsNluEngine::parse_with_alternatives"])
p("C03","The first parser that finds an intent decides the result",
"Parsing gives the intent, confidence and slots of the first parser, in the order of the model, that finds an intent under the filter. If none does, the result has no intent, no slots and the confidence of the last parser (0 without parsers), and the input is always echoed verbatim. Asking for the slots of one intent likewise gives those of the first parser that finds any for it.",
["inputs","configurations"],"all sequences of zero to four parsers of the three kinds over the same dataset, all texts and filters",
"The tests use one fixed list of parsers, with sentences that are known to be handled by a given parser.",
[E],[("parse_with_alternatives loop over intent_parsers",E)],["SnipsNluEngine::parse"])
p("C04","Intent scores cover every intent once, sorted, each the maximum of the parsers",
"Scoring the intents of a text returns every intent of the dataset exactly once and the absence of intent at most once, by decreasing score, all scores being in [0, 1]. The score of each is the highest given by any of the engine's parsers.",
["inputs","configurations"],"all engines and texts, including empty and unknown texts",
"The tests compare three scores on one sentence; duplicates, missing entries and the order depend on the combination of parsers and of matches.",
[E,"src/intent_classifier/log_reg_intent_classifier.rs","src/intent_parser/deterministic_intent_parser.rs","src/intent_parser/lookup_intent_parser.rs"],
[("get_intents merge",E),("get_intents of each parser","src/intent_parser/*.rs")],["SnipsNluEngine::get_intents"])
p("C05","Requested alternatives are bounded, new, filtered and consistent",
"Asking for n intent alternatives does not change the top intent and slots and adds at most n alternatives, none of which repeats the top result or another alternative, in the order and with the scores of the engine's intent scores, restricted by the filter, as many as are available. The slots of an alternative are those obtained by asking for the slots of that intent. Asking for m slot alternatives adds at most m distinct values to each slot, different from its value, without changing the slot itself, and 0 adds none.",
["inputs","configurations"],"all engines, texts, filters and numbers of alternatives",
"The tests check one sentence, in which the parsed intent is also the best scored one, which is not always so.",
[E,"src/slot_utils.rs","src/entity_parser/custom_entity_parser.rs","src/entity_parser/builtin_entity_parser.rs"],
[("parse_with_alternatives",E),("alternative_resolved_values","src/slot_utils.rs"),("max_alternative_resolved_values in the cache keys","src/entity_parser/*.rs")],
["SnipsNluEngine::parse_with_alternatives","SnipsNluEngine::get_slots_with_alternatives"])
p("C06","Results depend on the arguments alone, not on history, threads or instance",
"The result of each call is the same whatever calls were made before on the engine (including failed ones and enough of them to fill and turn over its caches), whatever other threads are doing on the same engine, and on any engine loaded from the same files. Engines sharing the same resources do not influence each other.",
["histories","schedules","inputs"],"all sequences of API calls on one engine, all interleavings of calls of several threads, all pairs of instances of a model",
"The tests make one call per engine; the caches, the shared tagger and the iteration order of hash maps only matter over several calls, several instances or several threads.",
[E,"src/entity_parser/utils.rs","src/entity_parser/custom_entity_parser.rs","src/entity_parser/builtin_entity_parser.rs","src/slot_filler/crf_slot_filler.rs"],
[("Cache::try_cache","src/entity_parser/utils.rs"),("CacheKey","src/entity_parser/*.rs"),("Mutex around the tagger","src/slot_filler/crf_slot_filler.rs")],
["SnipsNluEngine (all methods)"])
p("C07","Deterministic parsing recognises exactly what its patterns describe",
"A text is matched by an intent's patterns exactly when, ignoring case, its tokens minus the ignored stop words (the intent's own exceptions excepted) follow one of them, either literally or with the entities of the intent's slots replaced by their placeholders. The slots are then the texts at the places of the pattern's groups (of overlapping ones, those with the most tokens and characters), and confidences share 1 between the matching intents in proportion to 1/(1+number of slots), a result that does not exceed 0.5 being no intent.",
["inputs","configurations"],"all pattern sets, slot mappings, entity sets, stop words and texts",
"The tests cover a dozen sentences, mostly ASCII, with one or two entities; the mapping from the rewritten text back to the input depends on number, length and order of entities, stop words and separators.",
["src/intent_parser/deterministic_intent_parser.rs","src/utils.rs"],
[("parse_top_intents, get_matching_result, get_range_shift","src/intent_parser/deterministic_intent_parser.rs"),("replace_entities","src/utils.rs")],
["DeterministicIntentParser::parse/get_intents/get_slots"])
p("C08","Lookup parsing recognises exactly the stored utterances",
"A text is recognised exactly when its canonical form (lower-case tokens minus ignored stop words, with some subset of its entities replaced by their placeholders) is a stored utterance of an allowed intent, and its slots are then those entities in order with the stored slot names. Confidences share 1 between the matching intents in proportion to 1/(1+number of slots), a result that does not exceed 0.5 being no intent.",
["inputs","configurations"],"all stored utterances, entity scopes, stop words and texts with up to eight entities",
"The tests look up a dozen sentences; the candidates are all the subsets of entities, filtered by scope, stop words and whitelist.",
["src/intent_parser/lookup_intent_parser.rs","src/utils.rs"],
[("get_candidates, parse_map_output, preprocess_text","src/intent_parser/lookup_intent_parser.rs")],
["LookupIntentParser::parse/get_intents/get_slots"])
p("C09","Probabilistic parsing is the classifier's best intent with its slot filler",
"The probabilistic parser returns the best scored intent allowed by the filter with its score and, when that is an intent, exactly the slots its slot filler extracts from the text, otherwise no slot. Its scores are the classifier's scores, and an intent without slot filler is an error.",
["inputs","configurations"],"all classifiers, slot fillers, texts and filters",
"The tests run one trained model on two sentences.",
["src/intent_parser/probabilistic_intent_parser.rs","src/intent_classifier/log_reg_intent_classifier.rs"],
[("parse/get_intents/get_slots","src/intent_parser/probabilistic_intent_parser.rs"),("get_intent","src/intent_classifier/log_reg_intent_classifier.rs")],
["ProbabilisticIntentParser"])
p("C10","Intent scores are the logistic regression of the features",
"For every model and feature vector, the scores are the sigmoids of the intercept plus the weighted sum of the features of each class, a model with a single class giving the two complementary scores of the classes in order. Each score goes to the intent at the same place of the intent list, lies in [0, 1], and a vector of another size is an error, never a crash.",
["inputs","configurations"],"all intercepts, weights and features, any numbers of classes and features (including none)",
"The two tests use one 3x3 and one binary model.",
["src/intent_classifier/logreg.rs","src/intent_classifier/log_reg_intent_classifier.rs"],
[("MulticlassLogisticRegression::new/run","src/intent_classifier/logreg.rs"),("LogRegIntentClassifier::from_path (transposition)","src/intent_classifier/log_reg_intent_classifier.rs")],
["MulticlassLogisticRegression::run","LogRegIntentClassifier::get_intents"])
p("C11","The text features are the normalised tf-idf of words, entities and clusters",
"The classifier's text features have one component per vocabulary entry: the number of times the (normalised, and stemmed if configured) words, builtin entities, custom entities and word clusters of the text name it, weighted by its idf, the whole vector being of Euclidean norm 1, or 0 when nothing matches.",
["inputs","configurations"],"all vocabularies, idf weights, clusters, stems, entity scopes and texts",
"One hand-made sentence is tested, with mocked entity parsers.",
["src/intent_classifier/featurizer.rs"],[("TfidfVectorizer::transform","src/intent_classifier/featurizer.rs")],
["LogRegIntentClassifier::compute_features"])
p("C12","The cooccurrence features flag exactly the known word pairs of the text",
"After the text features comes one component per known word pair, 1 exactly when the two words occur in the text (entities replaced by their names, stop words and unknown-word marks dropped if configured) within the window and, if the order matters, in that order, otherwise 0.",
["inputs","configurations"],"all pair sets, windows, orders, stop words, entities and texts",
"Four sentences are tested, with mocked entity parsers.",
["src/intent_classifier/featurizer.rs","src/utils.rs"],[("CooccurrenceVectorizer::transform, extract_word_pairs","src/intent_classifier/featurizer.rs")],
["LogRegIntentClassifier::compute_features"])
p("C13","Tag sequences decode to the slots they encode",
"For each tagging scheme, labelling any set of separate slots of a text with the scheme and decoding the labels gives these slots back, with their texts, ranges, names and entities. Any other sequence of labels of the scheme decodes to ordered, disjoint slots made of whole tokens which cover exactly the tokens not labelled as outside, and a slot name without known entity is an error.",
["inputs","configurations"],"all token sequences, slot layouts, schemes and label sequences, including the inconsistent ones a tagger may output",
"The tests decode about ten label sequences per scheme.",
["src/slot_filler/crf_utils.rs","src/slot_filler/crf_slot_filler.rs"],[("tags_to_slots","src/slot_filler/crf_utils.rs"),("CRFSlotFiller::get_slots","src/slot_filler/crf_slot_filler.rs")],
["CRFSlotFiller::get_slots"])
p("C14","The tagger receives the configured features of each token",
"For every configuration and text, each token gets exactly the features configured (digits, length, position, n-grams, shapes, prefixes, suffixes, entity matches, word clusters) with the values these have at the token at the configured offset, named after the feature, its argument and the offset, and nothing for offsets outside the text. A configuration naming an unknown feature or resource is an error.",
["inputs","configurations"],"all feature configurations, offsets, resources and texts",
"Each feature is tested on one sentence, and the offsets on one.",
["src/slot_filler/features.rs","src/slot_filler/feature_processor.rs","src/slot_filler/features_utils.rs","src/slot_filler/crf_utils.rs"],
[("compute of each Feature","src/slot_filler/features.rs"),("ProbabilisticFeatureProcessor::compute_features","src/slot_filler/feature_processor.rs")],
["CRFSlotFiller::compute_features"])
p("C15","Label sequence probabilities form a distribution",
"The probability of any label sequence for a text is in [0, 1], the probabilities of all the label sequences of a text add up to 1, and the sequence chosen by the slot filler is a most probable one. Labels never seen in training count as outside, and an intent without tagger gives 1 to the sequence of outside labels and 0 to any other.",
["inputs","configurations"],"all CRF models, texts and label sequences",
"The tests compare three probabilities of one model.",
["src/slot_filler/crf_slot_filler.rs","src/slot_filler/crf_utils.rs"],[("get_sequence_probability","src/slot_filler/crf_slot_filler.rs"),("get_substitution_label","src/slot_filler/crf_utils.rs")],
["SlotFiller::get_sequence_probability"])
p("C16","Custom slot values resolve to known values, or to the text when allowed",
"The value of a slot of a custom entity is the value to which the entity resolves the whole slot text, found in the sentence or in the slot text alone. Otherwise it is the slot text itself if the entity accepts unseen values, and if it does not, the slot is dropped; nothing else removes or changes a slot.",
["inputs","configurations"],"all entities, values, synonyms, extensibility flags and texts",
"A few values of one or two entities are tested, with mocked entity parsers.",
["src/slot_utils.rs",E],[("resolve_custom_slot","src/slot_utils.rs"),("resolve_slots",E)],
["SnipsNluEngine::parse","SnipsNluEngine::get_slots"])
p("C17","Builtin slot values are what the builtin parser reads there",
"The value of a slot of a builtin entity is the value that the builtin entity parser gives for that entity at that place of the sentence, or else the last one it gives in the slot text alone, and the slot is dropped if there is none; the value is always of the slot's entity.",
["inputs","configurations"],"all builtin entities, texts and slot positions",
"Only numbers, in two sentences, are tested.",
["src/slot_utils.rs",E,"src/entity_parser/builtin_entity_parser.rs"],[("resolve_builtin_slot","src/slot_utils.rs")],
["SnipsNluEngine::parse","SnipsNluEngine::get_slots"])
p("C18","Extracting one slot finds a value of its entity in the text",
"Extracting a given slot of a given intent from a text returns a value of the slot's entity found in the text, located by its range and raw text and resolved as the entity does. Without any such value it returns the whole text when the entity accepts unseen values and nothing otherwise, and an unknown intent or slot is an error.",
["inputs","configurations"],"all engines, intents, slots and texts",
"Four sentences are tested.",
[E],[("extract_slot, extract_custom_slot, extract_builtin_slot",E)],["SnipsNluEngine::extract_slot_with_alternatives"])
p("C19","Injected values are recognised, and nothing else changes",
"After a successful injection, an engine loaded from the directory recognises every injected value of each entity, whatever its case, and resolves it to the value as injected, in addition to all the previous values, the latest injections winning over older values with the same text. Injecting from vanilla forgets the values injected before, and entities and files that are not concerned are unchanged.",
["histories","inputs","configurations"],"all sequences of injections (values, entities, from vanilla or not) on all engines, custom and builtin gazetteer entities, with and without stems",
"The tests do single injections of one or two values.",
["src/injection/injection.rs"],[("NluInjector::inject, stem_entity_value, normalize","src/injection/injection.rs")],["injection::NluInjector","SnipsNluEngine::from_path"])
p("C20","A refused or failed injection changes nothing",
"Injecting into an unknown entity, a grammar entity, a builtin entity absent from the engine, or with unusable resources is refused with an error that says so, and the engine directory stays byte for byte what it was, even if other entities of the same injection were valid. When writing the new values fails, the values present before are still there and the engine still loads.",
["fault_sequences","inputs","configurations"],"all mixes of valid and invalid injections, all damaged or missing files, and a failure to write at any point",
"The tests check the kind of error of three refusals, never the state of the directory.",
["src/injection/injection.rs","src/injection/errors.rs"],[("get_entity_parsers_dirs (checked before any write)","src/injection/injection.rs"),("dump of the updated parser","src/injection/injection.rs")],["injection::NluInjector"])
p("C21","Only models of the supported version are loaded",
"An engine is loaded only if its model says exactly the model version supported by the library. Any other version is an error naming both versions, whatever the rest of the model, and the reported version is the one that loads.",
["configurations","inputs"],"all version strings",
"One wrong version is tested.",
[E,"src/errors.rs","src/models/nlu_engine.rs","ffi/src/lib.rs"],[("check_model_version",E)],["SnipsNluEngine::from_path","snips_nlu_engine_get_model_version"])
p("C22","Damaged model files are refused, never crash",
"Loading an engine of which any file is missing, truncated, corrupted or inconsistent with the others either fails with an error or gives an engine whose calls return results or errors. No such engine makes the process panic, abort or hang.",
["fault_sequences","inputs","configurations"],"all removals, truncations, byte changes and structural changes (types, sizes, indices, names) of every file of an engine directory, followed by calls on the engine if it loads",
"The tests load a handful of valid models.",
["src/nlu_engine.rs","src/models","src/intent_classifier","src/intent_parser","src/slot_filler","src/resources"],[("from_path / new of each unit","src/**")],["SnipsNluEngine::from_path","SnipsNluEngine (all methods)"])
p("C23","An engine loaded from an archive behaves as the one of the directory",
"Zipping an engine directory under any name, with any order of entries, with or without directory entries and compression, and loading it from the archive gives an engine with the same results as the one loaded from the directory. An archive without an engine, or data that is no archive, is an error.",
["inputs","configurations"],"all engines, archive layouts and corrupted archives",
"One fixed archive is loaded.",
["src/utils.rs",E],[("extract_nlu_engine_zip_archive","src/utils.rs"),("from_zip",E)],["SnipsNluEngine::from_zip"])
p("C24","Unpacking an archive stays in its temporary directory, which is then removed",
"Whatever the names of the entries of an archive (absolute, with parent components, with backslashes, empty, clashing), loading it writes no file outside its temporary directory. That directory is removed when loading ends, with or without success.",
["inputs","fault_sequences"],"all archives, including hostile ones",
"No test loads a hostile archive.",
["src/utils.rs",E],[("sanitized_name","src/utils.rs"),("tempdir",E)],["SnipsNluEngine::from_zip"])
p("C25","The language resources are read as written",
"Stop words, stems, gazetteers and word clusters are read from the files named by the resource metadata, every non-empty line being an entry and nothing else: a word is a stop word or a member of a gazetteer exactly when it is listed, its stem is the one of the last line listing it or else itself, and its cluster is the one listed. A resource that is named but missing is an error, one that is not named is absent.",
["inputs","configurations"],"all resource files and queried words",
"The tests read one small file of each kind.",
["src/resources/loading.rs","src/resources/stemmer.rs","src/resources/gazetteer.rs","src/resources/word_clusterer.rs"],[("load_shared_resources","src/resources/loading.rs")],["load_shared_resources"])
p("C26","Custom entities are located in the original text",
"Whatever the punctuation, spacing and case of the text, each custom entity occurrence is reported at the characters of the text that it covers, from the start of its first token to the end of its last one, with its resolved value. The answer does not depend on what was asked before.",
["inputs","configurations","histories"],"all entities, texts (any Unicode) and sequences of requests",
"Two sentences are tested.",
["src/entity_parser/custom_entity_parser.rs","src/entity_parser/builtin_entity_parser.rs"],[("compute_char_shifts","src/entity_parser/custom_entity_parser.rs")],["SharedResources.custom_entity_parser"])
p("C27","The C API returns what the library returns",
"For every engine and arguments, each function of the C API gives, as a structure and as JSON, exactly the result of the corresponding call of the library, with every field (text, ranges, values of all kinds, scores, alternatives), with null lists meaning no filter, also when several threads use the engine at once. What it returns stays valid until it is destroyed, and destroying it releases its memory.",
["inputs","configurations"],"all engines, texts, filters, numbers of alternatives",
"The C API has no test in the repository.",
["ffi/src/lib.rs"],[("run_* and *_into_json","ffi/src/lib.rs")],["snips_nlu_engine_*"])
p("C28","The C API reports every failure and stays usable",
"Null inputs (engine, text, intent, archive, elements of lists), non UTF-8 text, missing directories, invalid archives, unknown intents and any other error of the library give the failure code and a retrievable non-empty message, never a crash. Afterwards the same engine and other engines give the same results as before.",
["histories","inputs","fault_sequences"],"all sequences of valid and failing calls",
"The C API has no test in the repository.",
["ffi/src/lib.rs"],[("wrap!, get_nlu_engine!, create_rust_string_from!","ffi/src/lib.rs")],["snips_nlu_engine_*"])
p("C29","The Python wrapper returns what the library returns",
"For every engine (from a folder or an archive) and arguments, the Python wrapper's parsing, scoring and slot extraction give the library's results, and errors of the library are raised as Python exceptions with their message. Engines do not affect each other, an error does not affect later calls, and repeating a call does not keep memory.",
["inputs","configurations","histories"],"all engines, texts, filters, numbers of alternatives and errors",
"The Python tests parse three sentences.",
["platforms/python/snips_nlu_rust/nlu_engine.py","platforms/python/snips_nlu_rust/utils.py","platforms/python/ffi/src/lib.rs"],[("NLUEngine","platforms/python/snips_nlu_rust/nlu_engine.py")],["NLUEngine.parse/get_intents/get_slots"])
p("C30","Any text is accepted",
"Every call of a loaded, well-formed engine with any text (empty, blank, very long, any Unicode) returns a result without panicking.",
["inputs","configurations"],"all strings, including ones of many thousand characters with entities and characters whose case mappings change their length",
"Every test uses short, mostly ASCII sentences.",
["src/utils.rs","src/entity_parser/custom_entity_parser.rs","src/entity_parser/builtin_entity_parser.rs",E],[("replace_entities","src/utils.rs"),("lowercasing before entity extraction","src/entity_parser/*.rs")],["SnipsNluEngine (all methods)"])
p("C31","The case of ASCII letters does not change intents or slot positions",
"For the pattern based, lookup and bag-of-words parts of an engine, changing the case of any ASCII letters of the text changes neither the intent, nor the scores, nor the ranges, names and resolved values of the slots.",
["inputs","configurations"],"all engines without case dependent features, all texts and case changes",
"One sentence in another case is tested per parser.",
["src/intent_parser/deterministic_intent_parser.rs","src/intent_parser/lookup_intent_parser.rs","src/intent_classifier/featurizer.rs","src/entity_parser"],[("case_insensitive, to_lowercase, normalize","src/**")],["SnipsNluEngine::parse"])
p("C32","Model files are read field by field, as written",
"Every well-formed model description (engine, parsers, classifier, vectorizers, slot filler, unit metadata) is read into exactly the values written in it, in any order of fields and with unknown fields ignored, the documented optional fields being absent or defaulted when missing. A missing mandatory field, a value of the wrong type or an unknown unit name is an error.",
["inputs","configurations"],"all model descriptions, and all single removals, type changes and renamings in them",
"One test reads five unit names.",
["src/models"],[("Deserialize of the models","src/models/*.rs")],["serde_json on the models","SnipsNluEngine::from_path"])
p("C33","Errors say what failed and keep their causes",
"Every library and injection error displays the message of its kind with the exact values it was made of, whatever they contain, and an injection error wrapping another error displays its own message and gives the wrapped one as its cause, with its backtrace.",
["inputs"],"all error kinds, messages and chains of causes",
"No test reads an error message.",
["src/errors.rs","src/injection/errors.rs"],[("Fail derive and impl","src/errors.rs, src/injection/errors.rs")],["SnipsNluError","NluInjectionError"])
p("C34","A C program built with the header gets what the library returns",
"A C program compiled against the published header, using only its types, constants and functions, reads from the results of the C API exactly what the library returns: intents, scores, slots, every kind of slot value with its units and grains, alternatives, the JSON form, the version of the model, and the code and message of failed calls.",
["inputs","configurations"],"all engines, histories of calls and kinds of values",
"No test compiles the header. It is written apart from the Rust structures, whose layout, order of fields and numbers of the constants it must repeat.",
["platforms/c/libsnips_nlu.h","ffi/src/lib.rs"],[("header","platforms/c/libsnips_nlu.h"),("exported functions","ffi/src/lib.rs")],["libsnips_nlu.h"])
p("C35","Blanks around the text only shift the positions",
"Adding spaces, tabs or ends of lines before or after a text that has another character changes neither the scores of the intents, nor the intent and its confidence, nor the slots, their values and their confidence. Only their ranges move, by the number of characters added before.",
["inputs","configurations"],"all engines, texts, blanks, filters and numbers of alternatives",
"The tests compare no two spellings of a text. Each parser and each entity parser maps positions on its own, through tokens, bytes and placeholders.",
[E,"src/utils.rs","src/intent_parser/deterministic_intent_parser.rs","src/intent_parser/lookup_intent_parser.rs","src/slot_filler/crf_utils.rs","src/slot_filler/features.rs","src/intent_classifier/featurizer.rs"],
[("parse_with_alternatives",E),("mapping of positions","src/utils.rs, src/slot_filler/crf_utils.rs, src/entity_parser/custom_entity_parser.rs")],["SnipsNluEngine::parse_with_alternatives","SnipsNluEngine::get_intents","SnipsNluEngine::get_slots"])
p("C36","Loading an engine from a folder and using it changes no file",
"Whatever engine is loaded from a folder, with or without success, and whatever is asked from it, no file or folder is created, changed, moved or removed, in the folder of the engine or elsewhere, and neither the current folder nor the environment of the process changes.",
["inputs","configurations","histories"],"all engines, complete or not, and all histories of calls",
"The tests look at results only. An effect may depend on the resources of the engine or on the first call of a kind.",
[E,"src/resources/loading.rs","src/entity_parser/builtin_entity_parser.rs","src/entity_parser/custom_entity_parser.rs","src/slot_filler/crf_slot_filler.rs"],[("from_path","src/nlu_engine.rs"),("load_shared_resources","src/resources/loading.rs")],["SnipsNluEngine::from_path","SnipsNluEngine::parse"])
p("C37","The memory an engine holds is bounded and given back",
"However many different texts an engine is asked, the memory it holds stops growing once its caches are full, and dropping the engine gives back all the memory that loading and using it took, whatever was asked.",
["inputs","configurations","histories"],"all engines, histories of calls and numbers of texts",
"The tests ask a few texts and never look at the memory.",
["src/entity_parser/utils.rs","src/entity_parser/builtin_entity_parser.rs","src/entity_parser/custom_entity_parser.rs",E,"src/resources/loading.rs"],[("Cache","src/entity_parser/utils.rs"),("SnipsNluEngine",E)],["SnipsNluEngine"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        if len(x['title'])>80: print(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
