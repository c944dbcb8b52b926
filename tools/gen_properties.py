#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe or [], hook_needed=None)))
S = 'sudachipy/'
p('C01', 'Morphemes tile the input text exactly',
  'For every text, split mode and configuration of the shipped plugins, the morphemes returned by tokenize, in order, have offsets into the original text that start at 0, end at the length of the text, and each begins where the previous one ended; each surface is exactly that slice, so the surfaces concatenate to the text that was passed in. '
  'This holds whatever the input plugins normalized, the path plugins joined or the split mode cut, for dictionaries whose split information covers the word it belongs to. Empty text gives an empty list.',
  ['inputs', 'configurations'], 'all texts, modes A/B/C, plugin configurations with non-empty replacement strings, consistent dictionaries',
  'A couple of dozen short fixed strings are tokenized in the tests and none checks that offsets chain from 0 to the end; the quantifier over texts (normalization that changes lengths, multi-byte characters, joined and split words) is out of their reach.',
  [S+'tokenizer.pyx', S+'lattice.pyx', S+'utf8inputtextbuilder.py', S+'utf8inputtext.py', S+'morphemelist.py', S+'plugin/path_rewrite/path_rewrite_plugin.py'],
  [('offset map', S+'utf8inputtextbuilder.py replace/build'), ('back pointers', S+'lattice.pyx get_best_path'), ('span of joined and split nodes', S+'plugin/path_rewrite/path_rewrite_plugin.py, '+S+'tokenizer.pyx _split_path')],
  observe=['MorphemeList', 'Morpheme.begin/end/surface'])
p('C02', 'Normalization keeps an exact map to original offsets',
  'After any sequence of replacements of non-empty ranges by non-empty strings on an input text under construction, the text is the old text with that range replaced, and the map from its characters to original offsets has one entry per character plus one for the end, never decreases, starts at 0 and ends at the original length. '
  'Characters outside a replaced range keep their offset; the first character of a replacement maps to the start of the replaced range, and every further one maps to its end.',
  ['inputs', 'histories'], 'all texts and all sequences of valid replacements',
  'Tests apply one or two fixed replacements; the map must survive every sequence of growing, shrinking and adjacent replacements.',
  [S+'utf8inputtextbuilder.py'], [('map update', S+'utf8inputtextbuilder.py replace')], [dict(name='modified_to_original', meaning='original offset of each character of the modified text, plus the end', where=S+'utf8inputtextbuilder.py')],
  ['UTF8InputTextBuilder.get_text', 'UTF8InputText.get_original_index'])
p('C03', 'Byte positions resolve to the right characters',
  'For every normalized text, the positional queries of the built input text agree with its UTF-8 encoding: every byte resolves to the character it belongs to (substring, original index, code point count, length of n code points), the end resolves to the end, the character categories of a position are those of its character, the continuous length reaches exactly to the end of the longest run, starting where the previous run stopped, whose characters share a category, and a position may begin a word only at a character start that does not continue a same-category alphabet, Greek or Cyrillic sequence.',
  ['inputs'], 'all Unicode texts without lone surrogates, all byte positions',
  'The tests check a single 11-character string at selected positions; wrong handling of 2- and 4-byte characters or of run boundaries elsewhere is invisible to them.',
  [S+'utf8inputtextbuilder.py', S+'utf8inputtext.py'], [('index construction', S+'utf8inputtextbuilder.py build, get_char_category_continuities, _build_can_bow_list'), ('queries', S+'utf8inputtext.py')],
  observe=['UTF8InputText.*'])
p('C04', 'Default normalization equals its rewrite definition',
  'For every text, the default input plugin rewrites it, left to right, to the concatenation of: the replacement of the longest rewrite-list key that starts at the current position, if there is one; otherwise the lower-cased character if that is on the ignore list; otherwise the NFKC normalization of the lower-cased character. '
  'Nothing else in the text changes and nothing is rewritten twice.',
  ['inputs', 'configurations'], 'all texts and all rewrite definition lists',
  'Tests run a handful of strings against one definition file; interactions of several length-changing rewrites in one text are not enumerable.',
  [S+'plugin/input_text/default_input_text_plugin.py'], [('scan with running offset', 'default_input_text_plugin.py rewrite'), ('definition reader', 'default_input_text_plugin.py read_rewrite_lists')],
  observe=['UTF8InputTextBuilder.get_text'])
p('C05', 'Prolonged sound marks collapse run by run',
  'For every text, mark set and replacement symbol, the prolonged-sound-mark plugin replaces each maximal run of two or more marks by the replacement symbol once, leaves single marks and all other characters untouched, and attributes each collapsed run to the original range of the run.',
  ['inputs', 'configurations'], 'all texts, all mark sets, all non-empty replacement symbols',
  'Tests use few runs and only one-character symbols; a running-offset error shows only with several runs or longer symbols.',
  [S+'plugin/input_text/prolongedsoundmark.py'], [('run scan with running offset', 'prolongedsoundmark.py rewrite')],
  observe=['UTF8InputTextBuilder.get_text'])
p('C06', 'Character categories are the union of defining ranges',
  'For every character definition and every code point, the category set looked up is the union of the categories of all definition lines whose range contains the code point (bounds inclusive), and exactly DEFAULT when no line contains it, whatever the order, nesting or overlap of the lines.',
  ['inputs', 'configurations'], 'all definition files, all code points',
  'Tests look up a few code points in four tiny definitions; correctness of the sweep that makes ranges disjoint depends on arbitrary overlap patterns.',
  [S+'dictionarylib/charactercategory.py'], [('range compilation', 'charactercategory.py _compile'), ('binary search', 'charactercategory.py get_category_types')],
  observe=['CharacterCategory.get_category_types'])
p('C07', 'The chosen path has minimal total cost',
  'For every lattice, every node is connected exactly when some chain of non-inhibited connections from the beginning of the sentence reaches it, its accumulated cost is the minimum over all such chains of word costs plus connection costs, and the path returned for the sentence is one that attains the minimum. '
  'A connection whose cost is the inhibited value is never used, and when no chain reaches the end an error is raised instead of a path.',
  ['inputs', 'configurations'], 'all lattices (any number of nodes, ids and costs) and connection matrices',
  'Tests compare a few segmentations; optimality is a statement about exponentially many alternative paths per lattice.',
  [S+'lattice.pyx', S+'latticenode.pyx'], [('best predecessor', 'lattice.pyx connect_node'), ('insertion order', 'tokenizer.pyx build_lattice_c'), ('back trace', 'lattice.pyx get_best_path')],
  observe=['Tokenizer.tokenize', 'Lattice.get_best_path'])
p('C08', 'Candidates are exactly the matching words',
  'For every text and lexicon, at every reachable position that may begin a word the lattice receives every dictionary word whose headword starts there and ends at a position that may begin a word or at the end of the text, each with the connection ids, cost and word id of its own dictionary entry, together with the words of the OOV providers where the character permits OOV words, the last provider being asked again only if there are none. '
  'Nothing else is inserted, and a reachable word-begin position with no candidate at all is an error rather than a silently dropped stretch of text.',
  ['inputs', 'configurations'], 'all texts, lexicon sets, OOV provider lists',
  'Tests only see final segmentations of a few strings in a 38-word lexicon; a missing or wrongly parameterised candidate seldom changes those.',
  [S+'tokenizer.pyx'], [('lattice construction', 'tokenizer.pyx build_lattice_c')], observe=['Tokenizer.tokenize', 'Lattice.get_nodes_with_end'])
p('C09', 'OOV words stay inside their character run',
  'For every text and position, each word an OOV provider offers begins at that position, is non-empty, ends at a character boundary not beyond the run of same-category characters (rule-based provider) or exactly at the next possible word beginning (simple provider), carries exactly the covered text as surface, normalized and dictionary form, and is marked OOV with the ids, cost and part of speech of the rule that produced it. '
  'The rule-based provider offers, for each category of the character that has rules and is either always invoked or without competing words, the whole run if the category groups, plus the prefixes of 1 up to the configured number of characters that fit in the run (strictly shorter ones only, if the whole run is already offered), and nothing else.',
  ['inputs', 'configurations'], 'all texts, positions, category definitions and OOV rules',
  'Tests use a mock text of two characters per category; run boundaries, multiple categories and multi-byte characters multiply beyond enumeration.',
  [S+'plugin/oov/mecab_oov_plugin.py', S+'plugin/oov/simple_oov_plugin.py', S+'plugin/oov/oov_provider_plugin.py'],
  [('rule-based provider', 'mecab_oov_plugin.py provide_oov'), ('fallback provider', 'simple_oov_plugin.py provide_oov'), ('span assignment', 'oov_provider_plugin.py get_oov')], observe=['OovProviderPlugin.get_oov'])
p('C10', 'Analysis does not depend on earlier calls',
  'The result of tokenizing a text with a tokenizer depends only on the text, mode, dictionaries and configuration: it is the same whatever texts of whatever lengths the tokenizer analysed before, and also after an earlier call that ended in an error.',
  ['histories', 'inputs'], 'all sequences of tokenize calls on one tokenizer, including failing ones',
  'Tests tokenize one string per tokenizer; state carried over in the reused lattice needs a longer text, a failure or a particular sequence before it shows.',
  [S+'tokenizer.pyx', S+'lattice.pyx'], [('lattice reuse', 'lattice.pyx resize/clear/expand'), ('per-call clearing', 'tokenizer.pyx tokenize')],
  [dict(name='end_lists', meaning='nodes by end position, reused between calls', where=S+'lattice.pyx')], ['Tokenizer.tokenize'])
p('C11', 'Split modes refine words into their dictionary units',
  'Tokenizing in mode A or B gives the mode C result with each word that lists two or more units for that mode replaced by those units in order, and every other word unchanged. The units lie one after the other from the begin of the word, each as long as its headword, and carry their own dictionary entries; splitting a mode C morpheme on demand gives the same units.',
  ['inputs', 'configurations'], 'all texts, all dictionaries with split information, modes A, B and C',
  'Tests split one word with two units.',
  [S+'tokenizer.pyx', S+'morphemelist.py', S+'morpheme.py'], [('mode split', 'tokenizer.pyx _split_path'), ('on demand split', 'morphemelist.py split')], observe=['Tokenizer.tokenize', 'Morpheme.split'])
p('C12', 'Normalized numerals denote the value that was written',
  'For every numeral accepted by the numeric parser (Arabic or Kanji digits, small units, large units, commas, decimal point), the normalized form is a plain decimal string whose value equals the value the numeral denotes, without trailing zeros after the decimal point or a dangling point. '
  'The value is that of the digits and units, commas being ignored. A sequence is refused when a unit or number does not fit below the units already accumulated, when a comma does not separate whole-number groups of three digits (the first of one to three digits, not all zero), or when a point starts, ends or repeats in a number.',
  ['inputs'], 'all strings over the numeral alphabet',
  'Tests list about forty numerals; digit and unit sequences are unbounded.',
  [S+'plugin/path_rewrite/numericparser.py'], [('decimal accumulator', 'numericparser.py StringNumber'), ('state machine', 'numericparser.py append/done')], observe=['NumericParser', 'Morpheme.normalized_form'])
p('C13', 'Joining rewrites only the words it joins',
  'Joining a stretch of a path (numerals or katakana) replaces exactly those consecutive words by one word that begins where the first began and ends where the last ended, with surface, reading and dictionary form concatenated in order (for an OOV join: the surface throughout, or the existing cheapest lattice word with that span), the part of speech of the first word or the configured one, and leaves every other word of the path as it was. '
  'Only words that are numeric (numeral characters, or separators inside a number) respectively katakana throughout are ever joined, and the rewriting always terminates.',
  ['inputs'], 'all paths and lattices',
  'Tests rewrite a dozen short paths.',
  [S+'plugin/path_rewrite/path_rewrite_plugin.py', S+'plugin/path_rewrite/join_katakana_oov_plugin.py', S+'plugin/path_rewrite/join_numeric_plugin.py'],
  [('concatenate', 'path_rewrite_plugin.py'), ('katakana scan', 'join_katakana_oov_plugin.py rewrite'), ('numeric scan', 'join_numeric_plugin.py rewrite')], observe=['Tokenizer.tokenize'])
p('C14', 'Word information survives the binary dictionary',
  'For every accepted lexicon source, each entry read back from the built dictionary has the surface, headword length, part-of-speech id, normalized form, reading form, dictionary-form reference, A/B/word-structure units, synonym groups, connection ids and cost of its source row (an empty normalized or reading form reads as the surface), whatever the other entries are; strings, arrays or numbers that the format cannot hold are refused with an error, never stored altered.',
  ['inputs'], 'all lexicon sources',
  'Tests build one entry and read fixed bytes; lengths around the one/two-byte boundary, characters outside the BMP and large dictionaries are not covered.',
  [S+'dictionarylib/dictionarybuilder.py', S+'dictionarylib/wordinfolist.py', S+'dictionarylib/wordparameterlist.py', S+'dictionarylib/jtypedbytebuffer.py'],
  [('writer', 'dictionarybuilder.py write_wordinfo, write_string, write_stringlength, write_intarray'), ('reader', 'wordinfolist.py get_word_info')], observe=['BinaryDictionary', 'WordInfo'])
p('C15', 'Grammar survives the binary dictionary',
  'For every accepted part-of-speech set and connection matrix definition, the grammar loaded from the built dictionary lists the same parts of speech under the same ids and returns, for every pair of right id and left id inside the declared (non-negative) sizes, exactly the cost the definition gave last (0 where it gave none), for square and non-square matrices alike; connection ids outside the declared sizes, part-of-speech columns with a comma and whatever else the format cannot hold are refused.',
  ['inputs'], 'all POS tables and matrix definitions',
  'Tests use one square 3x3 or 10x10 matrix and short POS names.',
  [S+'dictionarylib/grammar.py', S+'dictionarylib/dictionarybuilder.py'], [('writer', 'dictionarybuilder.py write_grammar, convert_postable, convert_matrix'), ('reader', 'grammar.py')], observe=['Grammar.get_connect_cost', 'Grammar.get_part_of_speech_string'])
p('C16', 'Lookup finds every headword prefix and nothing else',
  'For every built dictionary, looking up a byte text at an offset yields exactly the ids of the indexed entries whose headword is a prefix of the text from that offset, each with the offset where it ends, including all homographs in entry order; over several dictionaries, each entry is reported under its own dictionary number.',
  ['inputs', 'configurations'], 'all dictionaries, texts and offsets',
  'Tests look up two or three fixed keys.',
  [S+'dictionarylib/doublearraylexicon.py', S+'dictionarylib/wordidtable.py', S+'dictionarylib/lexiconset.py', S+'dictionarylib/dictionarybuilder.py'],
  [('index writer', 'dictionarybuilder.py add_to_trie, write_lexicon'), ('index reader', 'wordidtable.py get, doublearraylexicon.py lookup'), ('merging', 'lexiconset.py lookup')], observe=['Lexicon.lookup'])
p('C17', 'Unit references resolve to the intended entries',
  'Every unit reference of a source row (a numeric id, a U-prefixed user id, or an inline headword, part of speech and reading) is stored as the id of the entry it denotes, user entries taking precedence over system entries in a user dictionary; a reference to an entry that does not exist is refused, so a built dictionary never holds a unit reference outside its entries.',
  ['inputs'], 'all sources and reference forms, system and user dictionaries',
  'Tests resolve a few literal references.',
  [S+'dictionarylib/dictionarybuilder.py', S+'dictionarylib/userdictionarybuilder.py', S+'dictionarylib/doublearraylexicon.py', S+'dictionarylib/lexiconset.py'],
  [('reference parser', 'dictionarybuilder.py parse_splitinfo, parse_id, word_to_id, get_wordid, check_wordid'), ('user overrides', 'userdictionarybuilder.py')], observe=['DictionaryBuilder.parse_splitinfo'])
p('C18', 'User dictionaries merge without mixing up words',
  'With any number of user dictionaries up to the supported fifteen, every word keeps its identity: a global word id denotes exactly one entry of one dictionary, the reported dictionary number is the position of that dictionary, its part of speech is the one its own dictionary declared, and its units refer to the system or to that same user dictionary as written. Loading more dictionaries than supported is refused.',
  ['configurations', 'inputs'], 'all lists of user dictionaries built against the system dictionary, all words',
  'Tests load one user dictionary.',
  [S+'dictionarylib/lexiconset.py', S+'dictionary.py', S+'dictionarylib/grammar.py', S+'latticenode.pyx'], [('id composition', 'lexiconset.py build_word_id, get_dictionary_id, get_word_id1'), ('POS and unit rebasing', 'lexiconset.py get_word_info, convert_split'), ('loading', 'dictionary.py _read_user_dictionary')], observe=['Morpheme.dictionary_id/part_of_speech/split'])
p('C19', 'Dictionary files are recognised by kind and version',
  'A header written with a version, a non-negative creation time and a description without NUL characters reads back with the same three values in a fixed-size block, and a description that does not fit is refused. A file is accepted as a system dictionary only with a system version and as a user dictionary only with a user version, any other version is refused, and grammar and synonym sections are expected exactly for the versions that have them.',
  ['inputs'], 'all versions, times and descriptions; all files',
  'Tests write one header.',
  [S+'dictionarylib/dictionaryheader.py', S+'dictionarylib/dictionaryversion.py', S+'dictionarylib/binarydictionary.py'], [('header codec', 'dictionaryheader.py'), ('version predicates', 'dictionaryversion.py'), ('load checks', 'binarydictionary.py')], observe=['DictionaryHeader', 'BinaryDictionary'])
p('C20', 'Morpheme lists and morphemes report one consistent word',
  'A morpheme list behaves as a sequence: its length, iteration, positive and negative indexing agree and out-of-range indices raise IndexError. For every index, all attributes of the morpheme (offsets, surface, forms, reading, part of speech, synonym groups, ids, OOV flag) describe the word at that index, OOV and joined words report dictionary number -1, and dictionary words the number of their dictionary.',
  ['inputs'], 'all morpheme lists and indices',
  'Tests touch a few attributes of single-word results.',
  [S+'morphemelist.py', S+'morpheme.py', S+'latticenode.pyx'], [('indexing', 'morphemelist.py __getitem__'), ('accessors', 'morpheme.py'), ('dictionary id', 'latticenode.pyx get_dictionary_id')], observe=['MorphemeList', 'Morpheme'])
p('C21', 'Settings resolve to the documented files',
  'Whatever the settings file contains, an explicit dictionary type selects that installed dictionary over the one in the settings, an unknown type is refused, an empty or missing system dictionary falls back to the core dictionary, and relative dictionary, user dictionary and character definition paths resolve against the resource directory (by default that of the settings file) while absolute ones are kept. A second set-up leaves nothing of the first behind.',
  ['configurations', 'histories'], 'all settings objects, resource directories and dictionary types',
  'Tests run three fixed configurations.',
  [S+'config.py'], [('set-up', 'config.py set_up'), ('path resolution', 'config.py to_absolute_resource_path')], observe=['config.settings'])
p('C22', 'Command line prints one line per morpheme and one EOS',
  'For every input line, the tokenize command prints, for each morpheme in order, its surface, comma-joined part of speech and normalized form separated by tabs (with -a also dictionary form, reading, dictionary number, synonym group ids in brackets, and the OOV mark exactly for OOV words), followed by a single EOS line, and the selected mode is the one used.',
  ['inputs', 'configurations'], 'all input lines, modes and flags',
  'No test runs the command line.',
  [S+'command_line.py'], [('output loop', 'command_line.py run'), ('mode selection', 'command_line.py _command_tokenize')], observe=['standard output of the tokenize command'])
p('C23', 'Lexicon rows are read column by column or refused',
  'Every accepted lexicon row becomes an entry whose headword, ids, cost, part of speech, reading, normalized form, dictionary-form reference, units and synonym groups come from their documented columns, with each \\uXXXX or \\u{X...} literal replaced by the character it names and everything else kept. Rows with too few columns, an empty headword, an over-long headword or string, an A-unit row that has A or B units, or too many units are refused with ValueError.',
  ['inputs'], 'all rows',
  'Tests parse one well-formed row and a handful of malformed ones.',
  [S+'dictionarylib/dictionarybuilder.py'], [('row parser', 'dictionarybuilder.py parse_line, decode, check_splitinfo_format, parse_synonym_group_ids')], observe=['DictionaryBuilder.parse_line', 'DictionaryBuilder.decode'])
p('C24', 'Automatic costs touch only the words that ask for them',
  'When a user dictionary is loaded, exactly the words whose cost is the automatic marker (-32768) get a new cost, namely the internal cost (last word cost minus first word cost) of the analysis of their non-empty surface with the dictionaries loaded so far minus 20 per morpheme, limited to the 16-bit range; every other cost and all connection ids stay as stored.',
  ['inputs', 'configurations'], 'all user dictionaries',
  'Tests never inspect stored costs.',
  [S+'dictionarylib/doublearraylexicon.py', S+'dictionarylib/wordparameterlist.py'], [('cost calculation', 'doublearraylexicon.py calculate_cost'), ('parameter store', 'wordparameterlist.py')], observe=['Lexicon.get_cost'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
