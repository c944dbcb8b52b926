"""Nodes of a path, morpheme lists and morphemes (C20)."""
from pyvc.api import *
from specs.lexicon import *

N = 'sudachipy.latticenode.LatticeNode.'


INFR = (['LatticeNode._is_defined', 'LatticeNode.extra_word_info', 'LatticeNode.lexicon', 'LatticeNode.word_id', 'LexiconSet.lexicons', 'LexiconSet.pos_offsets', 'list[int]', 'list[Lex]', 'Lex.word_infos',
         'WordInfoList.bytes', 'WordInfoList.offset', 'WordInfoList.has_synonym_gid', 'Mmap.data'] + ['WordInfo.' + f for f in
        ('surface', 'head_word_length', 'pos_id', 'normalized_form', 'dictionary_form_word_id', 'dictionary_form', 'reading_form', 'a_unit_split', 'b_unit_split', 'word_structure', 'synonym_group_ids')])


@spec(opaque=True, reads=INFR[:13] + ['Mmap.pos'])
def node_ok(n: 'LatticeNode'):
    """the word of the node can be read"""
    return implies(n._is_defined and n.extra_word_info is None, n.lexicon is not None and word_in(n.lexicon, n.word_id))


@spec(opaque=True, reads=INFR)
def node_info(wi: 'WordInfo', n: 'LatticeNode'):
    """wi describes the word of the node"""
    return (wi is UNK if not n._is_defined else wi is n.extra_word_info if n.extra_word_info is not None else info_of(wi, n.lexicon, n.word_id))


contract(N + 'get_word_info', returns='WordInfo', requires=['node_ok(self)'], ensures=['node_info(result, self)'])
contract(N + 'get_dictionary_id', returns='int', requires=['node_ok(self)'],
         ensures=['result == (dic(self.word_id) if self._is_defined and self.extra_word_info is None else -1)'])
for f, a in (('get_begin', 'begin'), ('get_end', 'end'), ('get_path_cost', 'cost'), ('get_left_id', 'left_id'), ('get_right_id', 'right_id'), ('get_word_id', 'word_id')):
    contract(N + f, returns='int', ensures=['result == self.' + a], pure=True, spec_result='self.' + a)
contract(N + 'is_oov', returns='bool', ensures=['result == self._is_oov'], pure=True, spec_result='self._is_oov')

ML = 'sudachipy.morphemelist.MorphemeList.'


@spec
def at(m: 'Morpheme', l: 'MorphemeList', i: 'int'):
    """m is the morpheme of index i"""
    return m.list is l and m.index == i and m.word_info is None


@spec(opaque=True, reads=['MorphemeList.path', 'MorphemeList.input_text', 'list[LatticeNode]', 'LatticeNode.begin', 'LatticeNode.end', 'list[int]', 'list[pset[CategoryType]]', 'list[bool]'] +
      ['InputText.' + f for f in ('modified_text', 'original_text', 'bytes', 'byte_indexes', 'offsets', 'char_categories', 'char_category_continuities', 'can_bow_list')])
def in_list(l: 'MorphemeList', i: 'int'):
    """index i is valid and its word lies in the text"""
    return (0 <= i and i < len(l.path) and it_wf(l.input_text) and 0 <= l.path[i].begin and l.path[i].begin <= l.path[i].end and l.path[i].end <= blen(l.input_text.modified_text))


contract(ML + '__getitem__', args={'index': 'int'}, returns='Morpheme', raises={'IndexError': 'index >= len(self.path) or index < -len(self.path)'},
         ensures=['fresh(result)', 'at(result, self, index if index >= 0 else index + len(self.path))'])
contract(ML + '__len__', returns='int', ensures=['result == len(self.path)'])
contract(ML + 'size', returns='int', ensures=['result == len(self.path)'])
contract(ML + '__iter__', returns='list[Morpheme]', ensures=['fresh(result)', 'len(result) == len(self.path)', 'all(at(result[i], self, i) for i in range(0, len(result)))', 'all(result[i] is not result[j] for i in range(0, len(result)) for j in range(0, i))'],
         inv={0: ['fresh(_yields)', 'len(_yields) == _k', 'all(at(_yields[i], self, i) for i in range(0, _k))', 'all(allocated(_yields[i]) for i in range(0, _k))', 'all(_yields[i] is not _yields[j] for i in range(0, _k) for j in range(0, i))']}, locals={'_yields': 'list[Morpheme]'})
contract(ML + 'get_begin', args={'index': 'int'}, returns='int', requires=['in_list(self, index)'], ensures=['result == self.input_text.offsets[self.path[index].begin]'])
contract(ML + 'get_end', args={'index': 'int'}, returns='int', requires=['in_list(self, index)'], ensures=['result == self.input_text.offsets[self.path[index].end]'])
contract(ML + 'get_surface', args={'index': 'int'}, returns='str', requires=['in_list(self, index)'],
         ensures=['result == self.input_text.original_text[self.input_text.offsets[self.path[index].begin]:self.input_text.offsets[self.path[index].end]]'])
contract(ML + 'get_word_info', args={'index': 'int'}, returns='WordInfo', requires=['0 <= index', 'index < len(self.path)', 'node_ok(self.path[index])'], ensures=['node_info(result, self.path[index])'])
contract(ML + 'is_oov', args={'index': 'int'}, returns='bool', requires=['0 <= index', 'index < len(self.path)'], ensures=['result == self.path[index]._is_oov'])

M = 'sudachipy.morpheme.Morpheme.'


@spec
def m_ok(m: 'Morpheme'):
    """the morpheme stands for a readable word; a word information read before is that of the word"""
    return (0 <= m.index and m.index < len(m.list.path) and node_ok(m.list.path[m.index]) and implies(m.word_info is not None, node_info(m.word_info, m.list.path[m.index])))


WI = dict(requires=['m_ok(self)'], modifies=['self.word_info'])
KEPT = ['self.word_info is not None', 'node_info(self.word_info, self.list.path[self.index])', 'm_ok(self)', 'implies(old(self.word_info) is not None, self.word_info is old(self.word_info))']
contract(M + 'get_word_info', returns='WordInfo', ensures=['result is self.word_info'] + KEPT, **WI)
for f, a, t in (('part_of_speech_id', 'pos_id', 'int'), ('dictionary_form', 'dictionary_form', 'str'), ('normalized_form', 'normalized_form', 'str'), ('reading_form', 'reading_form', 'str')):
    contract(M + f, returns=t, ensures=['result == self.word_info.' + a] + KEPT, **WI)
contract(M + 'synonym_group_ids', returns='list[int]', ensures=['result is self.word_info.synonym_group_ids'] + KEPT, **WI)
contract(M + 'part_of_speech', returns='list[str]', ensures=['result is self.list.grammar.pos_list[self.word_info.pos_id if self.word_info.pos_id >= 0 else self.word_info.pos_id + len(self.list.grammar.pos_list)]'] + KEPT,
         raises={'IndexError': None}, **WI)
for f, g, t in (('begin', 'offsets[self.list.path[self.index].begin]', 'int'), ('end', 'offsets[self.list.path[self.index].end]', 'int')):
    contract(M + f, returns=t, requires=['in_list(self.list, self.index)'], ensures=['result == self.list.input_text.' + g])
for f in ('surface', '__str__'):
    contract(M + f, returns='str', requires=['in_list(self.list, self.index)'],
             ensures=['result == self.list.input_text.original_text[self.list.input_text.offsets[self.list.path[self.index].begin]:self.list.input_text.offsets[self.list.path[self.index].end]]'])
contract(M + 'is_oov', returns='bool', requires=['m_ok(self)'], ensures=['result == self.list.path[self.index]._is_oov'])
contract(M + 'word_id', returns='int', requires=['m_ok(self)'], ensures=['result == self.list.path[self.index].word_id'])
contract(M + 'dictionary_id', returns='int', requires=['m_ok(self)'], lets={'_n': 'self.list.path[self.index]'},
         ensures=['result == (dic(_n.word_id) if _n._is_defined and _n.extra_word_info is None else -1)'])
contract('sudachipy.dictionarylib.grammar.Grammar.get_part_of_speech_string', args={'pos_id': 'int'}, returns='list[str]',
         raises={'IndexError': 'pos_id >= len(self.pos_list) or pos_id < -len(self.pos_list)'}, ensures=['result is self.pos_list[pos_id if pos_id >= 0 else pos_id + len(self.pos_list)]'])

prop('C20', READER + [S + 'get_dictionary_id', S + 'get_word_id1', S + 'build_word_id', S + 'convert_split', S + 'get_word_info', L + 'get_word_info', 'convu_len', 'convu_at'] +
     [N + x for x in ('get_word_info', 'get_dictionary_id', 'get_begin', 'get_end', 'get_word_id', 'is_oov')] +
     [ML + x for x in ('__getitem__', '__len__', 'size', '__iter__', 'get_begin', 'get_end', 'get_surface', 'get_word_info', 'is_oov')] +
     [M + x for x in ('get_word_info', 'part_of_speech_id', 'part_of_speech', 'dictionary_form', 'normalized_form', 'reading_form', 'synonym_group_ids', 'begin', 'end', 'surface', '__str__', 'is_oov',
                      'word_id', 'dictionary_id')] + ['sudachipy.dictionarylib.grammar.Grammar.get_part_of_speech_string'])
