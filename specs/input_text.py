"""Input text under construction (UTF8InputTextBuilder) and the built input text (UTF8InputText)."""
from pyvc.api import *
from specs.utf8 import *

enum('CategoryType', 'sudachipy.dictionarylib.categorytype.CategoryType')

cls('Builder', 'sudachipy.utf8inputtextbuilder.UTF8InputTextBuilder',
    {'grammar': 'Grammar', 'original_text': 'str', 'modified_text': 'str', 'modified_to_original': 'list[int]'})
cls('Grammar', 'sudachipy.dictionarylib.grammar.Grammar',
    {'char_category': 'CharacterCategory?', 'pos_list': 'list[list[str]]', '_matrix_view': 'View', 'storage_size': 'int', 'is_copied_connect_table': 'bool', '_POS_DEPTH': 'int',
     '_BOS_PARAMETER': 'list[int]', '_EOS_PARAMETER': 'list[int]'})
cls('CharacterCategory', 'sudachipy.dictionarylib.charactercategory.CharacterCategory', {'range_list': 'list[Range]'})
cls('Range', 'sudachipy.dictionarylib.charactercategory.CharacterCategory.Range', {'low': 'int', 'high': 'int', 'categories': 'pset[CategoryType]'})
cls('InputText', 'sudachipy.utf8inputtext.UTF8InputText',
    {'original_text': 'str', 'modified_text': 'str', 'bytes': 'bytes', 'offsets': 'list[int]', 'byte_indexes': 'list[int]', 'char_categories': 'list[pset[CategoryType]]',
     'char_category_continuities': 'list[int]', 'can_bow_list': 'list[bool]',
     # the providers asked about the text (provider, position, whether other words are there, number of words offered), from where on for each position, and the words given
     'g_asks': 'seq[tuple[Oov,int,bool,int]]', 'g_as': 'seq[int]', 'g_given': 'seq[LatticeNode]'})


@spec
def wf_map(m: 'seq[int]', n: 'int', orig: 'int'):
    """one entry per character plus the end, monotone, 0 at the start, the original length at the end"""
    return (len(m) == n + 1 and n >= 0 and m[0] == 0 and m[n] == orig
            and all(m[i] <= m[j] for i in range(0, n + 1) for j in range(i, n + 1)))


@spec
def b_wf(b: 'Builder'):
    return wf_map(b.modified_to_original, len(b.modified_text), len(b.original_text))


B = 'sudachipy.utf8inputtextbuilder.UTF8InputTextBuilder.'


@spec(rec=True)
def again(v: 'int', n: 'int') -> 'seq[int]':
    return [] if n <= 0 else again(v, n - 1) + [v]


@lemma(requires=['0 <= n'], ensures=['len(again(v, n)) == n'], dec='n', pats=['again(v, n)'])
def again_len(v: 'int', n: 'int'):
    if n > 0:
        again_len(v, n - 1)


@lemma(requires=['0 <= i', 'i < n'], ensures=['again(v, n)[i] == v'], dec='n', pats=['again(v, n)[i]'], uses=['again_len'])
def again_at(v: 'int', n: 'int', i: 'int'):
    if i < n - 1:
        again_at(v, n - 1, i)



contract(B + '__init__', args={'text': 'str', 'grammar': 'Grammar'},
         ensures=['b_wf(self)', 'self.modified_text == text', 'self.original_text == text', 'self.grammar is grammar',
                  'fresh(self.modified_to_original)',
                  'all(self.modified_to_original[i] == i for i in range(0, len(text) + 1))'])

contract(B + 'replace', args={'begin': 'int', 'end': 'int', 'str_': 'str'},
         requires=['b_wf(self)', 'len(str_) > 0', 'begin < len(self.modified_text)'],
         modifies=['self.modified_text', 'self.modified_to_original[]', 'self.modified_to_original'],
         lets={'_l0': 'self.modified_to_original', '_t': 'self.modified_text', '_m': 'seqof(self.modified_to_original)', '_e': 'min(end, len(self.modified_text))'},
         raises={'IndexError': 'begin < 0 or begin > end', 'AttributeError': 'begin >= 0 and begin == end'},
         ensures=['self.modified_text == _t[:begin] + str_ + _t[_e:]', 'self.modified_to_original is _l0 or fresh(self.modified_to_original)',
                  'b_wf(self)', 'seqof(self.modified_to_original) == _m[:begin + 1] + again(_m[_e], len(str_) - 1) + _m[_e:]'], uses=['again_len', 'again_at'],
         inv={0: ['len(self.modified_to_original) == len(_m) - (_e - begin) + max(min(_e - begin, len(str_)), _k + 1)',
                  'all(self.modified_to_original[i] == _m[i] for i in range(0, begin + 1))',
                  'all(self.modified_to_original[i] == _m[_e] for i in range(begin + 1, begin + 1 + _k))',
                  'all(self.modified_to_original[i] == _m[i - len(self.modified_to_original) + len(_m)] for i in range(_e + len(self.modified_to_original) - len(_m), len(self.modified_to_original)))']})


@lemma(requires=['0 <= begin', 'begin < end', 'end < len(m)', 'n > 0', 'r == m[:begin + 1] + again(m[end], n - 1) + m[end:]'],
       ensures=['len(r) == len(m) - (end - begin) + n', 'all(r[i] == m[i] for i in range(0, begin + 1))', 'all(r[i] == m[end] for i in range(begin + 1, begin + n))', 'all(r[i] == m[i - n + (end - begin)] for i in range(begin + n, len(r)))'],
       uses=['again_len', 'again_at'])
def replaced_map(m: 'seq[int]', begin: 'int', end: 'int', n: 'int', r: 'seq[int]'):
    """positions before the range and its first one are kept, the others of the replacement are the end of the range, those behind move along"""
    pass


contract(B + 'get_text', returns='str', ensures=['result == self.modified_text'], pure=True, spec_result='self.modified_text')
contract(B + 'get_original_text', returns='str', ensures=['result == self.original_text'], pure=True, spec_result='self.original_text')

prop('C02', ['replaced_map', 'again_len', 'again_at', B + '__init__', B + 'replace', B + 'get_text', B + 'get_original_text'])


# ------------------------------------------------------------ categories of characters and runs of characters that share one
@spec(rec=True, reads=['Range.low', 'Range.high', 'Range.categories'])
def catr(rs: 'seq[Range]', k: 'int', cp: 'int') -> 'pset[CategoryType]':
    """categories of a code point according to the last of the first k ranges that contains it, DEFAULT if there is none"""
    return {CategoryType.DEFAULT} if k <= 0 else (rs[k - 1].categories if rs[k - 1].low <= cp and cp < rs[k - 1].high else catr(rs, k - 1, cp))


@spec
def catof(cc: 'CharacterCategory', cp: 'int') -> 'pset[CategoryType]':
    return catr(seqof(cc.range_list), len(cc.range_list), cp)


@spec
def cc_wf(cc: 'CharacterCategory'):
    """ranges are non-empty, sorted and disjoint"""
    return (all(cc.range_list[i].low < cc.range_list[i].high for i in range(0, len(cc.range_list)))
            and all(cc.range_list[i].high <= cc.range_list[j].low for i in range(0, len(cc.range_list)) for j in range(i + 1, len(cc.range_list))))


@spec(rec=True)
def inall(cats: 'seq[pset[CategoryType]]', i: 'int', j: 'int', c: 'CategoryType') -> 'bool':
    """category c belongs to all characters from i to j"""
    return True if j <= i else inall(cats, i, j - 1, c) and c in cats[j - 1]


@lemma(requires=['j <= i'], ensures=['inall(cats, i, j, c)'], pats=['inall(cats, i, j, c)'])
def inall_empty(cats: 'seq[pset[CategoryType]]', i: 'int', j: 'int', c: 'CategoryType'):
    pass


@spec(opaque=True)
def conn(cats: 'seq[pset[CategoryType]]', i: 'int', j: 'int') -> 'bool':
    """the characters from i to j share a category"""
    return any(inall(cats, i, j, c) for c in CategoryType)


@spec(rec=True)
def rstart(cats: 'seq[pset[CategoryType]]', i: 'int') -> 'int':
    """where the run of character i starts: runs are the longest ones whose characters share a category, each starting where the previous one stopped"""
    return 0 if i <= 0 else (rstart(cats, i - 1) if conn(cats, rstart(cats, i - 1), i + 1) else i)


@spec(rec=True)
def rend(cats: 'seq[pset[CategoryType]]', i: 'int') -> 'int':
    """where the run of character i ends"""
    return i + 1 if i + 1 >= len(cats) or rstart(cats, i + 1) == i + 1 else rend(cats, i + 1)


@lemma(requires=['0 <= i', 'i <= k', 'rstart(cats, i) == i', 'all(conn(cats, i, m) for m in range(i + 2, k + 2))'], ensures=['rstart(cats, k) == i'], dec='k')
def rstart_in(cats: 'seq[pset[CategoryType]]', i: 'int', k: 'int'):
    if k > i:
        rstart_in(cats, i, k - 1)


@lemma(requires=['0 <= i', 'i <= k', 'k < nx', 'nx <= len(cats)', 'nx == len(cats) or rstart(cats, nx) == nx', 'rstart(cats, i) == i', 'all(conn(cats, i, m) for m in range(i + 2, nx + 1))'],
       ensures=['rend(cats, k) == nx'], dec='nx - k')
def rend_in(cats: 'seq[pset[CategoryType]]', i: 'int', k: 'int', nx: 'int'):
    if k + 1 < nx:
        rend_in(cats, i, k + 1, nx)
        rstart_in(cats, i, k + 1)


@lemma(requires=['0 <= i', 'i < nx', 'nx <= len(cats)', 'rstart(cats, i) == i', 'all(conn(cats, i, m) for m in range(i + 2, nx + 1))', 'nx == len(cats) or not conn(cats, i, nx + 1)'],
       ensures=['nx == len(cats) or rstart(cats, nx) == nx'])
def run_next(cats: 'seq[pset[CategoryType]]', i: 'int', nx: 'int'):
    rstart_in(cats, i, nx - 1)


@lemma(requires=['0 <= i', 'i < nx', 'nx <= len(cats)', 'nx == len(cats) or rstart(cats, nx) == nx', 'rstart(cats, i) == i', 'all(conn(cats, i, m) for m in range(i + 2, nx + 1))', 'i + d <= nx', 'd >= 0'],
       ensures=['all(rend(cats, k) == nx for k in range(nx - d, nx))'], dec='d')
def rend_all(cats: 'seq[pset[CategoryType]]', i: 'int', nx: 'int', d: 'int'):
    if d > 0:
        rend_all(cats, i, nx, d - 1)
        rend_in(cats, i, nx - d, nx)


@lemma(requires=['0 <= i', 'i < len(cats)'], ensures=['rend(cats, i) > i', 'rend(cats, i) <= len(cats)'], dec='len(cats) - i', pats=['rend(cats, i)'])
def rend_range(cats: 'seq[pset[CategoryType]]', i: 'int'):
    if i + 1 < len(cats):
        rend_range(cats, i + 1)


@spec
def bowc(cats: 'seq[pset[CategoryType]]', i: 'int'):
    """character i may begin a word"""
    return (i == 0 or not (CategoryType.ALPHA in cats[i] or CategoryType.GREEK in cats[i] or CategoryType.CYRILLIC in cats[i])
            or disjoint(cats[i], cats[i - 1]))


@spec
def it_wf(x: 'InputText'):
    """the built input text is consistent with the UTF-8 encoding of its text"""
    return (x.bytes == utf8(x.modified_text)
            and len(x.byte_indexes) == blen(x.modified_text) + 1
            and all(x.byte_indexes[p] == chof(x.modified_text, p) for p in range(0, blen(x.modified_text) + 1))
            and len(x.offsets) == blen(x.modified_text) + 1
            and all(0 <= x.offsets[p] and x.offsets[p] <= len(x.original_text) for p in range(0, blen(x.modified_text) + 1))
            and all(x.offsets[p] <= x.offsets[q] for p in range(0, blen(x.modified_text) + 1) for q in range(p, blen(x.modified_text) + 1))
            and x.offsets[0] == 0 and x.offsets[blen(x.modified_text)] == len(x.original_text)
            and len(x.char_categories) == len(x.modified_text)
            and len(x.char_category_continuities) == blen(x.modified_text)
            and all(x.char_category_continuities[p] == off(x.modified_text, rend(seqof(x.char_categories), chof(x.modified_text, p))) - p for p in range(0, blen(x.modified_text)))
            and len(x.can_bow_list) == len(x.modified_text)
            and all(x.can_bow_list[i] == bowc(seqof(x.char_categories), i) for i in range(0, len(x.modified_text))))


PC = 'list[pset[CategoryType]]'
contract(B + 'utf8_byte_length', args={'cp': 'int'}, returns='int', requires=['0 <= cp', 'cp <= 0x10FFFF'], ensures=['result == clen(cp)'])
contract(B + 'get_char_category_continuous_length', args={'char_categories': PC, 'offset': 'int'}, returns='int',
         requires=['0 <= offset', 'offset < len(char_categories)'], uses=['inall_empty'],
         ensures=['1 <= result', 'offset + result <= len(char_categories)',
                  'all(conn(seqof(char_categories), offset, m) for m in range(offset + 2, offset + result + 1))',
                  'offset + result == len(char_categories) or not conn(seqof(char_categories), offset, offset + result + 1)'],
         inv={0: ['all(iff(c in continuous_category, inall(seqof(char_categories), offset, offset + 1 + _k, c)) for c in CategoryType)',
                  'all(conn(seqof(char_categories), offset, m) for m in range(offset + 2, offset + _k + 2))']})
contract(B + 'get_char_category_continuities', args={'text': 'str', 'byte_length': 'int', 'char_categories': PC}, returns='list[int]',
         requires=['len(char_categories) == len(text)'],
         ensures=['fresh(result)', 'len(result) == blen(text)',
                  'all(result[p] == off(text, rend(seqof(char_categories), chof(text, p))) - p for p in range(0, len(result)))'],
         uses=TEXT,
         lets={'_c': 'seqof(char_categories)'}, locals={'char_category_continuities': 'list[int]'},
         inv={0: ['0 <= i', 'i <= len(text)', 'i == len(text) or rstart(_c, i) == i', 'len(char_category_continuities) == off(text, i)',
                  'all(char_category_continuities[p] == off(text, rend(_c, chof(text, p))) - p for p in range(0, off(text, i)))'],
              1: ['length == off(text, i + _k) - off(text, i)'],
              2: ['len(char_category_continuities) == off(text, i) + _k',
                  'all(char_category_continuities[p] == off(text, rend(_c, chof(text, p))) - p for p in range(0, off(text, i)))',
                  'all(char_category_continuities[p] == off(text, next_) - p for p in range(off(text, i), off(text, i) + _k))']},
         hints={'before:i = next_': ['run_next(_c, i, next_)', 'rend_all(_c, i, next_, next_ - i)']})
contract(B + '_build_can_bow_list', args={'text': 'str', 'char_categories': PC}, returns='list[bool]', requires=['len(char_categories) == len(text)'],
         ensures=['fresh(result)', 'len(result) == len(text)', 'all(result[i] == bowc(seqof(char_categories), i) for i in range(0, len(text)))'],
         locals={'can_bow_list': 'list[bool]'},
         inv={0: ['len(can_bow_list) == _k', 'all(can_bow_list[j] == bowc(seqof(char_categories), j) for j in range(0, _k))']})
contract('sudachipy.dictionarylib.grammar.Grammar.get_character_category', returns='CharacterCategory?', ensures=['result is self.char_category'], pure=True, spec_result='self.char_category')
contract('sudachipy.dictionarylib.charactercategory.CharacterCategory.get_category_types', args={'code_point': 'int'}, returns='pset[CategoryType]',
         requires=['cc_wf(self)'], ensures=['result == catof(self, code_point)'],
         uses=['catr_hit', 'catr_none'],
         inv={0: ['0 <= begin', 'begin <= pivot', 'n == 0 or pivot < end', 'end <= n', 'pivot == (begin + end) // 2',
                  'all(self.range_list[i].high <= code_point for i in range(0, begin + 1 if begin > 0 else 0))',
                  'all(self.range_list[i].low > code_point for i in range(end, n))']},
         hints={'before:return range_.categories': ['catr_hit(seqof(self.range_list), n, code_point, pivot)'],
                'before:return {categorytype.CategoryType.DEFAULT}': ['catr_none(seqof(self.range_list), n, code_point)']})


@lemma(requires=['0 <= k', 'k <= len(rs)', 'all(rs[i].high <= cp or cp < rs[i].low for i in range(0, k))'], ensures=['catr(rs, k, cp) == {CategoryType.DEFAULT}'], dec='k')
def catr_none(rs: 'seq[Range]', k: 'int', cp: 'int'):
    if k > 0:
        catr_none(rs, k - 1, cp)


@lemma(requires=['0 <= i', 'i < k', 'k <= len(rs)', 'rs[i].low <= cp', 'cp < rs[i].high', 'all(rs[j].high <= cp or cp < rs[j].low for j in range(i + 1, k))'],
       ensures=['catr(rs, k, cp) == rs[i].categories'], dec='k')
def catr_hit(rs: 'seq[Range]', k: 'int', cp: 'int', i: 'int'):
    if k > i + 1:
        catr_hit(rs, k - 1, cp, i)


contract(B + 'get_char_category_types', args={'text': 'str'}, returns=PC, requires=['self.grammar.char_category is not None', 'cc_wf(self.grammar.char_category)'],
         ensures=['fresh(result)', 'len(result) == len(text)', 'all(result[i] == catof(self.grammar.char_category, ord(text[i])) for i in range(0, len(text)))'],
         locals={'c0': 'pset[CategoryType]'}, inv={'c0': ['fresh(_res)', 'len(_res) == _k', 'all(_res[i] == catof(self.grammar.char_category, ord(text[i])) for i in range(0, _k))']})

contract(B + 'build', returns='InputText', requires=['b_wf(self)', 'self.grammar.char_category is not None', 'cc_wf(self.grammar.char_category)'], uses=TEXT,
         ensures=['fresh(result)', 'result.modified_text == self.modified_text', 'result.original_text == self.original_text', 'it_wf(result)',
                  'all(result.offsets[p] == self.modified_to_original[chof(self.modified_text, p)] for p in range(0, blen(self.modified_text) + 1))',
                  'all(result.char_categories[i] == catof(self.grammar.char_category, ord(self.modified_text[i])) for i in range(0, len(self.modified_text)))'],
         inv={0: ['j == off(self.modified_text, _k)', 'len(byte_indexes) == length + 1', 'len(offsets) == length + 1',
                  'all(byte_indexes[p] == chof(self.modified_text, p) for p in range(0, j))',
                  'all(offsets[p] == self.modified_to_original[chof(self.modified_text, p)] for p in range(0, j))'],
              1: ['j == off(self.modified_text, i) + _k', 'len(byte_indexes) == length + 1', 'len(offsets) == length + 1',
                  'all(byte_indexes[p] == chof(self.modified_text, p) for p in range(0, j))',
                  'all(offsets[p] == self.modified_to_original[chof(self.modified_text, p)] for p in range(0, j))']},
         hints={'loop1.body': ['assert j < off(self.modified_text, i + 1) and off(self.modified_text, i + 1) <= length']})

I = 'sudachipy.utf8inputtext.UTF8InputText.'
contract(I + 'get_original_text', returns='str', ensures=['result == self.original_text'], pure=True, spec_result='self.original_text')
contract(I + 'get_text', returns='str', ensures=['result == self.modified_text'], pure=True, spec_result='self.modified_text')
contract(I + 'get_byte_text', returns='bytes', ensures=['result == self.bytes'], pure=True, spec_result='self.bytes')
contract(I + 'get_substring', args={'begin': 'int', 'end': 'int'}, returns='str', requires=['it_wf(self)'], uses=TEXT,
         raises={'IndexError': 'begin < 0 or end > blen(self.modified_text) or begin > end'},
         ensures=['result == self.modified_text[chof(self.modified_text, begin):chof(self.modified_text, end)]'])
contract(I + 'get_offset_text_length', args={'index': 'int'}, returns='int', requires=['it_wf(self)', '0 <= index', 'index <= blen(self.modified_text)'],
         ensures=['result == chof(self.modified_text, index)'])
contract(I + 'get_original_index', args={'index': 'int'}, returns='int', requires=['it_wf(self)', '0 <= index', 'index <= blen(self.modified_text)'],
         ensures=['result == self.offsets[index]'])
contract(I + 'code_point_count', args={'begin': 'int', 'end': 'int'}, returns='int', requires=['it_wf(self)', '0 <= begin', 'begin <= end', 'end <= blen(self.modified_text)'],
         ensures=['result == chof(self.modified_text, end) - chof(self.modified_text, begin)'])
contract(I + 'get_code_points_offset_length', args={'index': 'int', 'code_point_offset': 'int'}, returns='int', uses=TEXT,
         requires=['it_wf(self)', '0 <= index', 'index <= blen(self.modified_text)', 'code_point_offset >= 0'],
         ensures=['implies(off(self.modified_text, chof(self.modified_text, index)) == index, index + result == off(self.modified_text, min(chof(self.modified_text, index) + code_point_offset, len(self.modified_text))))'],
         inv={0: ['length == _k', 'implies(_k > 0, chof(self.modified_text, index + _k - 1) < target)']})
contract(I + 'can_bow', args={'idx': 'int'}, returns='bool', requires=['it_wf(self)', '0 <= idx', 'idx < blen(self.modified_text)'], uses=TEXT,
         ensures=['result == bow(self, idx)'])
contract(I + 'get_word_candidate_length', args={'index': 'int'}, returns='int', requires=['it_wf(self)', '0 <= index', 'index < blen(self.modified_text)'], uses=TEXT,
         ensures=['result >= 1', 'index + result <= blen(self.modified_text)', 'index + result == blen(self.modified_text) or bow(self, index + result)',
                  'all(not bow(self, p) for p in range(index + 1, index + result))'],
         inv={0: ['all(not bow(self, p) for p in range(index + 1, index + 1 + _k))']})
contract(I + 'get_char_category_continuous_length', args={'index': 'int'}, returns='int', requires=['it_wf(self)', '0 <= index', 'index < blen(self.modified_text)'], uses=TEXT + ['rend_range'],
         ensures=['index + result == off(self.modified_text, rend(seqof(self.char_categories), chof(self.modified_text, index)))', 'result >= 1', 'index + result <= blen(self.modified_text)'])
contract(I + 'get_char_category_types', args={'begin': 'int', 'end': 'none'}, returns='pset[CategoryType]', requires=['it_wf(self)', '0 <= begin', 'begin < blen(self.modified_text)'], uses=TEXT,
         key=I + 'get_char_category_types', match={'end': 'none'}, ensures=['result == self.char_categories[chof(self.modified_text, begin)]'])


@spec
def bow(x: 'InputText', p: 'int'):
    """byte p may begin a word"""
    return off(x.modified_text, chof(x.modified_text, p)) == p and bowc(seqof(x.char_categories), chof(x.modified_text, p))


CATS = ['sudachipy.dictionarylib.charactercategory.CharacterCategory.get_category_types']
prop('C06', ['catr_hit', 'catr_none'] + CATS)
prop('C03', ['off_mono', 'off_pos', 'chs_char', 'chof_char', 'chof_unique', 'chof_off', 'chof_mono', 'inall_empty', 'rstart_in', 'rend_in', 'run_next', 'rend_all', 'rend_range', 'catr_hit', 'catr_none',
             B + 'utf8_byte_length', B + 'get_char_category_continuous_length', B + 'get_char_category_continuities', B + '_build_can_bow_list', B + 'get_char_category_types',
             'sudachipy.dictionarylib.grammar.Grammar.get_character_category', 'sudachipy.dictionarylib.charactercategory.CharacterCategory.get_category_types',
             B + 'build'] + [I + x for x in ('get_original_text', 'get_text', 'get_byte_text', 'get_substring', 'get_offset_text_length', 'get_original_index', 'code_point_count', 'get_code_points_offset_length',
                                             'can_bow', 'get_word_candidate_length', 'get_char_category_continuous_length', 'get_char_category_types')])
