S = 'sudachipy/'
D = S + 'dictionarylib/'
SIMPLE = "dict(**{'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'leftId': 0, 'rightId': 0, 'oovPOS': %s, 'cost': %d})"
BUGS = [
 dict(id='c08-not-told', property='C08', edits=[(S + 'tokenizer.pyx', "            for oov_plugin in tokenizer._oov_provider_plugins:\n                for node in oov_plugin.get_oov(input_, i, has_words):\n", "            found = has_words\n            for oov_plugin in tokenizer._oov_provider_plugins:\n                for node in oov_plugin.get_oov(input_, i, found):\n")],
      needs='two OOV providers of which the first one offers words where there is no dictionary word', breaks='the later provider is not told that there are words already, and adds its own',
      demo='''
one, two = [{'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': p, 'leftId': 0, 'rightId': 0, 'cost': c} for p, c in ((OOV, 30000), (NUM, 10))]
with World([row('あ')], oov=[one, two]) as w:
    ms = w.dict.create().tokenize('あX')
    assert list(ms[1].part_of_speech()) == OOV, ms[1].part_of_speech()
'''),
 dict(id='c08-before-last', property='C08', edits=[(S + 'tokenizer.pyx', "            if (end < len(bytes_)) and (not input_.can_bow(end)):", "            if (end + 1 < len(bytes_)) and (not input_.can_bow(end)):")],
      needs='a text whose last two letters are one run, and a dictionary word that ends between them', breaks='a word that ends where no word may begin gets into the lattice',
      demo='''
with World([row('a')]) as w:
    ms = w.dict.create().tokenize('ab')
    assert [m.surface() for m in ms] == ['ab']
'''),
 dict(id='c09-last-byte', property='C09', edits=[(S + 'utf8inputtext.py', "        for i in range(index + 1, len(self.bytes)):\n            if self.can_bow(i):", "        for i in range(index + 1, len(self.bytes) - 1):\n            if self.can_bow(i):")],
      needs='an unknown word followed by a single one-byte character of another kind at the end of the text', breaks='the OOV word extends over the last possible word beginning',
      demo='''
with World([row('い'), row('5')]) as w:
    ms = w.dict.create().tokenize('い亜5')
    assert [m.surface() for m in ms] == ['い', '亜', '5'], [m.surface() for m in ms]
'''),
 dict(id='c09-pairwise-run', property='C09', edits=[(S + 'utf8inputtextbuilder.py', "            continuous_category = continuous_category & char_categories[offset + length]\n", "            continuous_category = char_categories[offset + length - 1] & char_categories[offset + length]\n")],
      needs='three characters of which neighbours share a category but not all three', breaks='the run of same-category characters goes on beyond the characters that share a category',
      demo='''
with World([row('い')]) as w:
    from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
    x = UTF8InputTextBuilder('アーい', w.dict.grammar).build()
    assert x.get_char_category_continuous_length(0) == 6, x.get_char_category_continuous_length(0)
'''),
 dict(id='c21-working-directory', property='C21', edits=[(S + 'config.py', "    if Path(dict_path).is_absolute():", "    if Path(dict_path).is_absolute() or Path(dict_path).exists():")],
      needs='a file of the same relative name in the working directory', breaks='a relative path resolves against the working directory instead of the resource directory',
      mk=False, demo='''
import json
import shutil
import tempfile
from sudachipy import config
d = tempfile.mkdtemp(prefix='demo-')
try:
    for x in ('here', 'res'):
        os.mkdir(os.path.join(d, x))
        open(os.path.join(d, x, 'my.dic'), 'w').close()
    c = os.path.join(d, 'res', 'sudachi.json')
    with open(c, 'w') as f:
        json.dump({'systemDict': 'my.dic', 'userDict': ['my.dic']}, f)
    os.chdir(os.path.join(d, 'here'))
    config.settings.set_up(c)
    assert config.settings.system_dict_path() == os.path.join(d, 'res', 'my.dic'), config.settings.system_dict_path()
finally:
    shutil.rmtree(d)
'''),
 dict(id='c21-keeps-old', property='C21', edits=[(S + 'config.py', "            self.__dict_ = json.load(f)", "            self.__dict_ = dict(self.__dict_ or {}, **json.load(f))")],
      needs='two set-ups, the first with a setting the second one lacks', breaks='a setting of the first set-up survives the second',
      mk=False, demo='''
import json
import shutil
import tempfile
from sudachipy import config
d = tempfile.mkdtemp(prefix='demo-')
try:
    a, b = os.path.join(d, 'a.json'), os.path.join(d, 'b.json')
    with open(a, 'w') as f:
        json.dump({'systemDict': 'my.dic', 'userDict': ['u.dic']}, f)
    with open(b, 'w') as f:
        json.dump({'systemDict': 'my.dic'}, f)
    config.settings.set_up(a)
    config.settings.set_up(b)
    assert config.settings.user_dict_paths() == [], config.settings.user_dict_paths()
finally:
    shutil.rmtree(d)
'''),
 dict(id='c22-trailing-blanks', property='C22', edits=[(S + 'command_line.py', "        line = line.rstrip('\\n')\n        for m", "        line = line.rstrip()\n        for m")],
      needs='an input line that ends with blanks', breaks='the morphemes of the trailing blanks are not printed',
      demo='''
with World([row('あ'), row(' ')]) as w:
    from sudachipy.command_line import run
    from sudachipy.tokenizer import Tokenizer
    out = []

    class L:
        def info(self, x):
            out.append(x)
    run(w.dict.create(), Tokenizer.SplitMode.C, ['あ \\n'], False, L(), False)
    assert [x.split('\\t')[0] for x in out] == ['あ', ' ', 'EOS'], out
'''),
 dict(id='c22-oov-by-number', property='C22', edits=[(S + 'command_line.py', "                if m.is_oov():\n", "                if m.dictionary_id() != 0:\n")],
      needs='a word of a user dictionary', breaks='words of user dictionaries are marked as OOV words',
      demo='''
with World([row('あ')], users=[[row('い')]]) as w:
    from sudachipy.command_line import run
    from sudachipy.tokenizer import Tokenizer
    out = []

    class L:
        def info(self, x):
            out.append(x)
    run(w.dict.create(), Tokenizer.SplitMode.C, ['い\\n'], True, L(), False)
    assert '(OOV)' not in out[0], out
'''),
 dict(id='c06-order-of-ends', property='C06', edits=[(D + 'charactercategory.py', "            return self.high < other.high\n", "            return (self.low, self.high) < (other.low, other.high)\n")],
      needs='a range that ends inside another one that begins before it', breaks='the categories are removed at the wrong ends',
      demo='''
with World([row('あ')], chardef='DEFAULT 0 1 0\\n0x0030..0x0045 NUMERIC\\n0x0033..0x0035 ALPHA\\n0x0034..0x0034 GREEK\\n') as w:
    from sudachipy.dictionarylib.categorytype import CategoryType as C
    g = w.dict.grammar.get_character_category()
    assert g.get_category_types(0x3a) == {C.NUMERIC}, g.get_category_types(0x3a)
    assert g.get_category_types(0x35) == {C.NUMERIC, C.ALPHA}
'''),
 dict(id='c06-merge-gap', property='C06', edits=[(D + 'charactercategory.py', "            if irange.low == _range.high and irange.categories == _range.categories:", "            if irange.low <= _range.high + 1 and irange.categories == _range.categories:")],
      needs='two ranges of the same categories that are one code point apart', breaks='the code point between them gets their categories',
      demo='''
with World([row('あ')], chardef='DEFAULT 0 1 0\\n0x0030..0x0035 NUMERIC\\n0x0037..0x0039 NUMERIC\\n') as w:
    from sudachipy.dictionarylib.categorytype import CategoryType as C
    assert w.dict.grammar.get_character_category().get_category_types(0x36) == {C.DEFAULT}
'''),
]
