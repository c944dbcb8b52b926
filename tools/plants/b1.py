S = 'sudachipy/'
D = S + 'dictionarylib/'
BUGS = [
 dict(id='c02-same-length', property='C02', edits=[(S + 'utf8inputtextbuilder.py', "        length = len(str_)\n        if end - begin > length:", "        length = len(str_)\n        if end - begin == length:\n            return  # every character keeps its place\n        if end - begin > length:")],
      needs='a replacement of two or more characters by the same number of characters', breaks='the later characters of such a replacement keep their own offsets instead of mapping to the end of the replaced range',
      mk=False, demo='''
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
b = UTF8InputTextBuilder('abcdef', None)
b.replace(1, 4, 'xyz')
assert b.get_text() == 'axyzef'
assert b.modified_to_original == [0, 1, 4, 4, 4, 5, 6], b.modified_to_original
'''),
 dict(id='c03-neighbours-only', property='C03', edits=[(S + 'utf8inputtextbuilder.py', "            continuous_category = continuous_category & char_categories[offset + length]\n            if len(continuous_category) == 0:", "            continuous_category = char_categories[offset + length - 1] & char_categories[offset + length]\n            if len(continuous_category) == 0:")],
      needs='three neighbouring characters of which each pair shares a category but not all three', breaks='the run goes on although no category is common to all its characters',
      mk=False, demo='''
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
from sudachipy.dictionarylib.categorytype import CategoryType as C
b = UTF8InputTextBuilder('xyz', None)
cats = [{C.KANJI}, {C.KANJI, C.HIRAGANA}, {C.HIRAGANA}]
assert b.get_char_category_continuous_length(cats, 0) == 2
'''),
 dict(id='c16-many-homographs', property='C16', edits=[(D + 'wordidtable.py', "        length = self._bytes_view[index]\n", "        length = self._bytes_view[index] & 0x7F  # a byte in Java\n")],
      needs='a headword with 128 to 255 homographs', breaks='lookup drops homographs',
      demo='''
with World([row('あ', c=i) for i in range(130)]) as w:
    got = [x for x in w.dict.lexicon.lookup('あ'.encode(), 0)]
    assert got == [(2 + i, 3) for i in range(130)], len(got)
'''),
 dict(id='c18-own-pos-offset', property='C18', edits=[(D + 'lexiconset.py', "if dic_id > 0 and pos_id >= self.pos_offsets[1]:", "if dic_id > 0 and pos_id >= self.pos_offsets[dic_id]:")],
      needs='a second user dictionary with a part of speech of its own, after a first one that also declared one', breaks='words of the second user dictionary report the part of speech of the first',
      demo='''
P1 = ['U', '1', '*', '*', '*', '*']
P2 = ['U', '2', '*', '*', '*', '*']
with World([row('あ')], users=[[row('い', pos=P1)], [row('う', pos=P2)]]) as w:
    ms = w.dict.create().tokenize('いう')
    assert [m.part_of_speech() for m in ms] == [P1, P2], [m.part_of_speech() for m in ms]
'''),
 dict(id='c18-later-dictionaries', property='C18', edits=[(D + 'lexiconset.py', "        return word_id >> 28\n", "        return (word_id >> 28) & 0x7  # the sign bit is not part of the number\n")],
      needs='an eighth user dictionary', breaks='words of dictionaries 8 and up are taken for words of dictionaries 0 to 7',
      demo='''
with World([row('あ')], users=[[row(c, reading='R' + c)] for c in 'かきくけこさしすせ']) as w:
    ms = w.dict.create().tokenize('すせ')
    assert [(m.dictionary_id(), m.reading_form()) for m in ms] == [(8, 'Rす'), (9, 'Rせ')], [(m.dictionary_id(), m.reading_form()) for m in ms]
'''),
 dict(id='c19-full-description', property='C19', edits=[(D + 'dictionaryheader.py', "        while len_ < cls.__DESCRIPTION_SIZE:\n            if bytes_[offset + len_] == 0:", "        while bytes_[offset + len_] != 0:\n            if len_ == cls.__DESCRIPTION_SIZE - 1:")],
      needs='a description that fills the 256 bytes completely', breaks='the last byte of the description is lost',
      mk=False, demo='''
from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
h = DictionaryHeader(0x7366d3f18bd111e7, 5, 'x' * 256)
b = h.to_bytes()
assert len(b) == 272
assert DictionaryHeader.from_bytes(b + b'zz', 0).description == 'x' * 256
'''),
 dict(id='c19-kind-not-version', property='C19', edits=[(D + 'dictionaryversion.py', "    return version == USER_DICT_VERSION_1 or version == USER_DICT_VERSION_2 or version == USER_DICT_VERSION_3\n", "    return is_dictionary(version) and version != SYSTEM_DICT_VERSION_2\n")],
      needs='a system dictionary of the first version offered as a user dictionary', breaks='it is accepted as a user dictionary',
      mk=False, demo='''
from sudachipy.dictionarylib import dictionaryversion as v
assert not v.is_user_dictionary(v.SYSTEM_DICT_VERSION_1)
assert v.is_user_dictionary(v.USER_DICT_VERSION_1)
'''),
 dict(id='c20-shared-morpheme', property='C20', edits=[(S + 'morphemelist.py', "        for index in range(len(self.path)):\n            yield morpheme.Morpheme(self, index)\n        return", "        m = morpheme.Morpheme(self, 0)\n        for index in range(len(self.path)):\n            m.index = index\n            m.word_info = None\n            yield m\n        return")],
      needs='morphemes kept after the iteration has moved on', breaks='all morphemes of an iteration are one object that describes the last word',
      demo='''
with World([row('あ'), row('い')]) as w:
    ms = w.dict.create().tokenize('あい')
    assert [m.surface() for m in list(ms)] == ['あ', 'い']
'''),
 dict(id='c11-no-b-units', property='C11', edits=[(S + 'tokenizer.pyx', "                wids = node.get_word_info().b_unit_split\n", "                wids = node.get_word_info().b_unit_split or node.get_word_info().a_unit_split\n")],
      needs='a word with A units but no B units, tokenized in mode B', breaks='mode B splits a word that lists no B units',
      demo='''
with World([row('東'), row('京'), row('東京', c=-5000, typ='B', a='2/3', s='2/3')]) as w:
    t = w.dict.create()
    assert [m.surface() for m in t.tokenize('東京', t.SplitMode.B)] == ['東京']
    assert [m.surface() for m in t.tokenize('東京', t.SplitMode.A)] == ['東', '京']
'''),
 dict(id='c11-surface-length', property='C11', edits=[(S + 'morphemelist.py', "            offset += n.get_word_info().head_word_length\n", "            offset += len(n.get_word_info().surface.encode('utf-8'))\n")],
      needs='a unit whose surface column differs in length from its headword, split on demand', breaks='units split on demand do not have the length of their headword',
      demo='''
with World([row('東', written='ひがし'), row('京'), row('東京', c=-5000, typ='C', a='2/3', s='2/3')]) as w:
    t = w.dict.create()
    m = t.tokenize('東京')[0]
    assert [x.surface() for x in m.split(t.SplitMode.A)] == ['東', '京'], [x.surface() for x in m.split(t.SplitMode.A)]
'''),
 dict(id='c24-normalized', property='C24', edits=[(D + 'doublearraylexicon.py', "            surface = self.get_word_info(wid).surface\n", "            surface = self.get_word_info(wid).normalized_form\n")],
      needs='a word with automatic cost whose normalized form is analysed at another cost than its surface', breaks='the cost is that of the normalized form',
      demo='''
with World([row('い', c=100), row('う', c=700), row('え', c=-40)], users=[[row('いう', c=-32768, norm='え')]]) as w:
    assert w.dict.lexicon.get_cost(1 << 28) == 700 - 100 - 40, w.dict.lexicon.get_cost(1 << 28)
'''),
 dict(id='c24-below-marker', property='C24', edits=[(D + 'doublearraylexicon.py', "            if self.get_cost(wid) != self.__SIGNED_SHORT_MIN:", "            if self.get_cost(wid) > -self.__SIGNED_SHORT_MAX:")],
      needs='a word of cost -32767', breaks='a word that did not ask for an automatic cost gets one',
      demo='''
with World([row('い', c=100)], users=[[row('いう', c=-32767)]]) as w:
    assert w.dict.lexicon.get_cost(1 << 28) == -32767, w.dict.lexicon.get_cost(1 << 28)
'''),
 dict(id='c07-prune', property='C07', edits=[(S + 'lattice.pyx', "            if not l_node.is_connected_to_bos:\n                continue\n", "            if not l_node.is_connected_to_bos or l_node.total_cost > r_node.total_cost:\n                continue  # it cannot become cheaper\n")],
      needs='a negative connection cost from a left word that alone is dearer than the best total found so far', breaks='the cheaper chain is overlooked',
      demo='''
with World([row('東', l=0, r=0, c=10), row('東', l=0, r=1, c=50), row('京', l=1, r=0, c=10)], matrix='4 4\\n1 1 -500\\n') as w:
    ms = w.dict.create().tokenize('東京')
    assert [m.word_id() for m in ms] == [3, 4], [m.word_id() for m in ms]
'''),
 dict(id='c07-best-order', property='C07', edits=[(S + 'lattice.pyx', "            if cost < r_node.total_cost:\n                r_node.total_cost = cost\n                r_node.best_previous_node = l_node\n", "            if cost < r_node.total_cost:\n                if r_node.best_previous_node is None or cost <= l_node.total_cost:\n                    r_node.total_cost = cost\n                r_node.best_previous_node = l_node\n")],
      needs='a second cheaper predecessor with positive connection cost', breaks='the recorded cost stays that of the first predecessor, so later choices are wrong',
      demo='''
with World([row('東', r=0, c=100), row('東', r=1, c=10), row('京', l=1, c=10), row('東京', l=0, c=80)], matrix='4 4\\n1 1 5\\n0 1 5\\n') as w:
    ms = w.dict.create().tokenize('東京')
    assert [m.word_id() for m in ms] == [3, 4], [m.word_id() for m in ms]
'''),
 dict(id='c15-last-given', property='C15', edits=[(D + 'dictionarybuilder.py', "            matrix.seek(2 * (l + lsize * r))\n            matrix.write_int(cost, 'short')", "            if cost:  # the matrix is made of zeros\n                matrix.seek(2 * (l + lsize * r))\n                matrix.write_int(cost, 'short')")],
      needs='a definition that gives a pair a cost and later gives the same pair the cost 0', breaks='the earlier cost stays',
      demo='''
with World([row('あ')], matrix='4 4\\n1 2 7\\n1 2 0\\n') as w:
    assert w.dict.grammar.get_connect_cost(1, 2) == 0
'''),
 dict(id='c06-gap', property='C06', edits=[(D + 'charactercategory.py', "            if irange.low == _range.high and irange.categories == _range.categories:", "            if irange.categories == _range.categories:")],
      needs='two ranges of equal categories, one after the other, with code points between them that no line defines', breaks='the code points between get the category of the ranges',
      demo='''
with World([row('あ')], chardef='DEFAULT 0 1 0\\n0x0030..0x0039 NUMERIC\\n0x0040..0x0045 NUMERIC\\n') as w:
    from sudachipy.dictionarylib.categorytype import CategoryType as C
    assert w.dict.grammar.get_character_category().get_category_types(0x3c) == {C.DEFAULT}
'''),
]
