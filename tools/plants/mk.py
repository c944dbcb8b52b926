"""helpers of the demonstrations: dictionaries built with the real builder in a scratch directory"""
import io
import json
import os
import shutil
import sys
import tempfile
import unicodedata  # noqa: F401

sys.path.insert(0, os.getcwd())
POS = ['名詞', '普通名詞', '一般', '*', '*', '*']
NUM = ['名詞', '数詞', '*', '*', '*', '*']
OOV = ['補助記号', '一般', '*', '*', '*', '*']
CHARDEF = '''DEFAULT 0 1 0
0x0030..0x0039 NUMERIC
0x0041..0x005A ALPHA
0x0061..0x007A ALPHA
0x0370..0x03FF GREEK
0x0400..0x04FF CYRILLIC
0x3041..0x309F HIRAGANA
0x30A1..0x30FF KATAKANA
0x30FC HIRAGANA KATAKANA
0x4E00..0x9FFF KANJI
0x4E00 KANJINUMERIC KANJI
'''


class Log:
    disabled = True

    def info(self, *a):
        pass
    debug = warn = warning = error = info


def row(surface, l=0, r=0, c=10, pos=POS, reading=None, norm=None, dic='*', typ='A', a='*', b='*', s='*', syn='*', written=None):
    return [surface, str(l), str(r), str(c), surface if written is None else written] + list(pos) + [surface if reading is None else reading, surface if norm is None else norm, dic, typ, a, b, s, syn]


def csvtext(rows):
    return ''.join(','.join(x) + '\n' for x in rows)


BASE = [row('1', pos=NUM), row('。', pos=OOV)]


class World:
    """World(rows, users=[rows, ...]); rows of the system dictionary follow two leading ones (ids 0 and 1)"""

    def __init__(self, rows, users=(), matrix=None, chardef=CHARDEF, inp=(), path=(), oov=None, base=BASE):
        from sudachipy.dictionarylib import SYSTEM_DICT_VERSION_2, USER_DICT_VERSION_3
        from sudachipy.dictionarylib.binarydictionary import BinaryDictionary
        from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
        from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
        from sudachipy.dictionarylib.userdictionarybuilder import UserDictionaryBuilder
        self.d = d = tempfile.mkdtemp(prefix='demo-')
        try:
            self.put('sys.csv', csvtext(list(base) + list(rows)))
            with open(os.path.join(d, 'system.dic'), 'wb') as f:
                f.write(DictionaryHeader(SYSTEM_DICT_VERSION_2, 1, 'sys').to_bytes())
                DictionaryBuilder(logger=Log()).build([os.path.join(d, 'sys.csv')], io.StringIO(matrix or '4 4\n'), f)
            sysd = BinaryDictionary.from_system_dictionary(os.path.join(d, 'system.dic')) if users else None
            ups = []
            for i, u in enumerate(users):
                self.put('user.csv', csvtext(u))
                p = os.path.join(d, 'user%d.dic' % i)
                with open(p, 'wb') as f:
                    f.write(DictionaryHeader(USER_DICT_VERSION_3, 1, 'u').to_bytes())
                    UserDictionaryBuilder(sysd.grammar, sysd.lexicon, logger=Log()).build([os.path.join(d, 'user.csv')], None, f)
                ups.append(p)
            self.put('char.def', chardef)
            conf = {'systemDict': os.path.join(d, 'system.dic'), 'userDict': ups, 'characterDefinitionFile': 'char.def', 'inputTextPlugin': list(inp), 'pathRewritePlugin': list(path),
                    'oovProviderPlugin': oov if oov is not None else [{'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': OOV, 'leftId': 0, 'rightId': 0, 'cost': 30000}]}
            self.put('sudachi.json', json.dumps(conf))
            from sudachipy import dictionary
            self.dict = dictionary.Dictionary(config_path=os.path.join(d, 'sudachi.json'), resource_dir=d)
        except BaseException:
            self.close()
            raise

    def put(self, name, text):
        with open(os.path.join(self.d, name), 'w', encoding='utf-8') as f:
            f.write(text)

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
