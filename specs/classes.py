"""Declarations of classes shared by several modules."""
from pyvc.api import *
from specs.binary import *
from specs.input_text import *

cls('WordInfo', 'sudachipy.dictionarylib.wordinfo.WordInfo',
    {'surface': 'str', 'head_word_length': 'int', 'pos_id': 'int', 'normalized_form': 'str', 'dictionary_form_word_id': 'int', 'dictionary_form': 'str', 'reading_form': 'str',
     'a_unit_split': 'list[int]', 'b_unit_split': 'list[int]', 'word_structure': 'list[int]', 'synonym_group_ids': 'list[int]'})
R.globals_['sudachipy.latticenode.UNK'] = 'WordInfo'
enum('SplitMode', 'sudachipy.tokenizer.Tokenizer.SplitMode')
cls('LatticeNode', 'sudachipy.latticenode.LatticeNode',
    {'begin': 'int', 'end': 'int', 'total_cost': 'int', 'word_id': 'int', '_is_oov': 'bool', '_is_defined': 'bool', 'is_connected_to_bos': 'bool', 'best_previous_node': 'LatticeNode?', 'g_best': 'int', 'g_at': 'int', 'g_no': 'int',
     'extra_word_info': 'WordInfo?', 'lexicon': 'LexiconSet?', 'left_id': 'int', 'right_id': 'int', 'cost': 'int'})
cls('MorphemeList', 'sudachipy.morphemelist.MorphemeList', {'input_text': 'InputText', 'grammar': 'Grammar', 'lexicon': 'LexiconSet', 'path': 'list[LatticeNode]'})
cls('Morpheme', 'sudachipy.morpheme.Morpheme', {'word_info': 'WordInfo?', 'list': 'MorphemeList', 'index': 'int'})
# g_rows, g_cols: the ids of the words a provider offers are below these
cls('Oov', 'sudachipy.plugin.oov.oov_provider_plugin.OovProviderPlugin', {'g_rows': 'int', 'g_cols': 'int'})
