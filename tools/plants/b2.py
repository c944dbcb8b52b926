S = 'sudachipy/'
D = S + 'dictionarylib/'
BUGS = [
 dict(id='c02-end-of-last', property='C02', edits=[(S + 'utf8inputtextbuilder.py', "        modified_end = self.modified_to_original[end]\n", "        modified_end = self.modified_to_original[end - 1] + 1\n")],
      needs='two replacements, the second of a range that ends with a character the first one produced', breaks='the later characters of the second replacement do not map to the end of the replaced range',
      mk=False, demo='''
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
b = UTF8InputTextBuilder('abcdef', None)
b.replace(1, 4, 'x')
b.replace(0, 2, 'yz')
assert b.get_text() == 'yzef'
assert b.modified_to_original == [0, 4, 4, 5, 6], b.modified_to_original
'''),
 dict(id='c06-set-of-states', property='C06', edits=[(D + 'charactercategory.py', "        states = []\n", "        states = set()\n"), (D + 'charactercategory.py', "                states.extend(right.categories)\n                continue", "                states.update(right.categories)\n                continue"),
   (D + 'charactercategory.py', "                    states.remove(cat)\n", "                    states.discard(cat)\n"), (D + 'charactercategory.py', "                states.extend(right.categories)\n                left_chain", "                states.update(right.categories)\n                left_chain")],
      needs='two overlapping ranges that name the same category', breaks='after the end of one of them the category is lost although the other goes on',
      demo='''
with World([row('あ')], chardef='DEFAULT 0 1 0\\n0x0030..0x0039 NUMERIC\\n0x0035..0x0045 NUMERIC ALPHA\\n') as w:
    from sudachipy.dictionarylib.categorytype import CategoryType as C
    assert w.dict.grammar.get_character_category().get_category_types(0x3c) == {C.NUMERIC, C.ALPHA}
'''),
 dict(id='c20-negative-twice', property='C20', edits=[(S + 'morphemelist.py', "        if index < 0:\n            return morpheme.Morpheme(self, n_morphs + index)\n", ""), (S + 'morphemelist.py', "        return self.path[index].is_oov()\n", "        return index >= 0 and self.path[index].is_oov()\n")],
      needs='a negative index whose word is an OOV word', breaks='an OOV word reached by a negative index is reported as a dictionary word',
      demo='''
with World([row('あ')]) as w:
    ms = w.dict.create().tokenize('あX')
    assert ms[1].is_oov() and ms[-1].is_oov()
'''),
]
