"""Word entries in a binary dictionary: what the bytes at an entry's position mean (reader side)."""
from pyvc.api import *
from specs.binary import *
from specs.utf8 import *
from specs.classes import *

extern('utf16', ['str'], 'bytes', py=lambda t: t.encode('utf-16-le'), note='str.encode("utf-16-le") of a text without lone surrogates')
extern('utf16ok', ['bytes'], 'bool')
extern('utf16dec', ['bytes'], 'str', py=lambda b: b.decode('utf-16-le'), note='bytes.decode("utf-16-le")')
axiom('utf16_back', [('t', 'str')], 'utf16dec(utf16(t)) == t and utf16ok(utf16(t))', pats=['utf16(t)'], note='decode inverts encode')


@spec(rec=True)
def u16(t: 'str', i: 'int') -> 'int':
    """UTF-16 code units of the first i characters"""
    return 0 if i <= 0 else u16(t, i - 1) + (1 if ord(t[i - 1]) <= 0xFFFF else 2)


axiom('utf16_len', [('t', 'str')], 'len(utf16(t)) == 2 * u16(t, len(t))', pats=['utf16(t)'], note='length of the UTF-16 encoding')

cls('WordInfoList', 'sudachipy.dictionarylib.wordinfolist.WordInfoList', {'bytes': 'Mmap', 'offset': 'int', '_word_size': 'int', 'has_synonym_gid': 'bool'})


@spec(opaque=True)
def strn(d: 'bytes', p: 'int') -> 'int':
    return d[p] if d[p] < 128 else (d[p] - 128) * 256 + d[p + 1]


@spec(opaque=True)
def strb(d: 'bytes', p: 'int') -> 'int':
    return p + 1 if d[p] < 128 else p + 2


@spec(opaque=True)
def stre(d: 'bytes', p: 'int') -> 'int':
    """end of the string at p"""
    return strb(d, p) + 2 * strn(d, p)


@spec(opaque=True)
def strv(d: 'bytes', p: 'int') -> 'str':
    """the string at p"""
    return utf16dec(d[strb(d, p):strb(d, p) + 2 * strn(d, p)])


@spec
def lenok(d: 'bytes', p: 'int'):
    return 0 <= p and p < len(d) and (d[p] < 128 or p + 1 < len(d)) and isbyte(d[p]) and implies(d[p] >= 128, isbyte(d[p + 1]))


@spec
def isbyte(v: 'int'):
    return 0 <= v and v <= 255


@spec
def strok(d: 'bytes', p: 'int'):
    return lenok(d, p) and strb(d, p) + 2 * strn(d, p) <= len(d) and utf16ok(d[strb(d, p):strb(d, p) + 2 * strn(d, p)])


@spec(rec=True)
def ints(d: 'bytes', p: 'int', n: 'int') -> 'seq[int]':
    """n numbers of 4 bytes from p on"""
    return [] if n <= 0 else ints(d, p, n - 1) + [frombytes(d[p + 4 * (n - 1):p + 4 * n], True)]


@lemma(requires=['0 <= n'], ensures=['len(ints(d, p, n)) == n'], dec='n', pats=['ints(d, p, n)'])
def ints_len(d: 'bytes', p: 'int', n: 'int'):
    if n > 0:
        ints_len(d, p, n - 1)


@lemma(requires=['0 <= i', 'i < n', '0 <= p'], ensures=['ints(d, p, n)[i] == frombytes(d[p + 4 * i:p + 4 * i + 4], True)'], dec='n', pats=['ints(d, p, n)[i]'], uses=['ints_len'])
def ints_at(d: 'bytes', p: 'int', n: 'int', i: 'int'):
    if i < n - 1:
        ints_at(d, p, n - 1, i)


@spec
def arrok(d: 'bytes', p: 'int'):
    return 0 <= p and p < len(d) and isbyte(d[p]) and p + 1 + 4 * d[p] <= len(d)


@spec(opaque=True)
def arrv(d: 'bytes', p: 'int') -> 'seq[int]':
    return ints(d, p + 1, d[p])


@spec(opaque=True)
def arre(d: 'bytes', p: 'int') -> 'int':
    return p + 1 + 4 * d[p]


@spec(opaque=True)
def e_p(d: 'bytes', o: 'int', w: 'int') -> 'int':
    return frombytes(d[o + 4 * w:o + 4 * w + 4], False)


@spec(opaque=True)
def e_h(d: 'bytes', p: 'int') -> 'int':
    return stre(d, p)


@spec(opaque=True)
def e_pos(d: 'bytes', p: 'int') -> 'int':
    return strb(d, e_h(d, p))


@spec(opaque=True)
def e_n(d: 'bytes', p: 'int') -> 'int':
    return e_pos(d, p) + 2


@spec(opaque=True)
def e_df(d: 'bytes', p: 'int') -> 'int':
    return stre(d, e_n(d, p))


@spec(opaque=True)
def e_r(d: 'bytes', p: 'int') -> 'int':
    return e_df(d, p) + 4


@spec(opaque=True)
def e_a(d: 'bytes', p: 'int') -> 'int':
    return stre(d, e_r(d, p))


@spec(opaque=True)
def e_b(d: 'bytes', p: 'int') -> 'int':
    return arre(d, e_a(d, p))


@spec(opaque=True)
def e_w(d: 'bytes', p: 'int') -> 'int':
    return arre(d, e_b(d, p))


@spec(opaque=True)
def e_s(d: 'bytes', p: 'int') -> 'int':
    return arre(d, e_w(d, p))


@spec
def entry_ok(d: 'bytes', p: 'int', syn: 'bool'):
    """a complete entry starts at p"""
    return (0 <= p and strok(d, p) and lenok(d, e_h(d, p)) and strok(d, e_n(d, p)) and strok(d, e_r(d, p)) and arrok(d, e_a(d, p)) and arrok(d, e_b(d, p)) and arrok(d, e_w(d, p))
            and implies(syn, arrok(d, e_s(d, p))))


@spec
def dfid(d: 'bytes', p: 'int') -> 'int':
    return frombytes(d[e_df(d, p):e_df(d, p) + 4], True)


@spec
def entry_core(wi: 'WordInfo', d: 'bytes', o: 'int', w: 'int', syn: 'bool'):
    """the fields of wi are those of entry w, but for part of speech and units"""
    return (wi.surface == strv(d, e_p(d, o, w)) and wi.head_word_length == strn(d, e_h(d, e_p(d, o, w)))
            and wi.normalized_form == (strv(d, e_n(d, e_p(d, o, w))) if strn(d, e_n(d, e_p(d, o, w))) > 0 else wi.surface)
            and wi.reading_form == (strv(d, e_r(d, e_p(d, o, w))) if strn(d, e_r(d, e_p(d, o, w))) > 0 else wi.surface)
            and wi.dictionary_form_word_id == dfid(d, e_p(d, o, w))
            and wi.dictionary_form == (strv(d, e_p(d, o, wi.dictionary_form_word_id)) if wi.dictionary_form_word_id >= 0 and wi.dictionary_form_word_id != w else wi.surface)
            and (wi.synonym_group_ids == arrv(d, e_s(d, e_p(d, o, w))) if syn else len(wi.synonym_group_ids) == 0))


@spec
def entry_pos(d: 'bytes', o: 'int', w: 'int') -> 'int':
    return frombytes(d[e_pos(d, e_p(d, o, w)):e_pos(d, e_p(d, o, w)) + 2], False)


@spec
def unit_list(d: 'bytes', o: 'int', w: 'int', k: 'int') -> 'seq[int]':
    """A units, B units, word structure of entry w"""
    return arrv(d, e_a(d, e_p(d, o, w)) if k == 0 else e_b(d, e_p(d, o, w)) if k == 1 else e_w(d, e_p(d, o, w)))


@spec
def entry_is(wi: 'WordInfo', d: 'bytes', o: 'int', w: 'int', syn: 'bool'):
    """the fields of wi are those of entry w"""
    return (entry_core(wi, d, o, w, syn) and wi.pos_id == entry_pos(d, o, w)
            and wi.a_unit_split == unit_list(d, o, w, 0) and wi.b_unit_split == unit_list(d, o, w, 1) and wi.word_structure == unit_list(d, o, w, 2))


@spec
def wok(d: 'bytes', o: 'int', w: 'int', syn: 'bool'):
    """entry w of the table at o and the entry of its dictionary form can be read"""
    return (0 <= w and 0 <= o and o + 4 * w + 4 <= len(d) and entry_ok(d, e_p(d, o, w), syn)
            and implies(dfid(d, e_p(d, o, w)) >= 0, o + 4 * dfid(d, e_p(d, o, w)) + 4 <= len(d) and strok(d, e_p(d, o, dfid(d, e_p(d, o, w))))))


@spec
def word_ok(l: 'WordInfoList', w: 'int'):
    """entry w and the entry of its dictionary form can be read"""
    return wok(l.bytes.data, l.offset, w, l.has_synonym_gid) and l.bytes.pos <= len(l.bytes.data) and l.bytes.pos >= 0


axiom('utf16dec_empty', [('b', 'bytes')], 'implies(utf16ok(b), (len(utf16dec(b)) == 0) == (len(b) == 0))', pats=['utf16dec(b)'], note='only no bytes decode to the empty text')

W = 'sudachipy.dictionarylib.wordinfolist.WordInfoList.'
contract(W + 'word_id_to_offset', args={'word_id': 'int'}, returns='int', requires=['0 <= word_id', '0 <= self.offset', 'self.offset + 4 * word_id + 4 <= len(self.bytes.data)'],
         ensures=['result == e_p(self.bytes.data, self.offset, word_id)'])
contract(W + 'buffer_to_string_length', returns='int', requires=['lenok(self.bytes.data, self.bytes.pos)'], modifies=['self.bytes.pos'],
         ensures=['result == strn(self.bytes.data, old(self.bytes.pos))', 'self.bytes.pos == strb(self.bytes.data, old(self.bytes.pos))'])
contract(W + 'buffer_to_string', returns='str', requires=['strok(self.bytes.data, self.bytes.pos)'], modifies=['self.bytes.pos'],
         ensures=['result == strv(self.bytes.data, old(self.bytes.pos))', 'self.bytes.pos == stre(self.bytes.data, old(self.bytes.pos))',
                  '(len(result) == 0) == (strn(self.bytes.data, old(self.bytes.pos)) == 0)'])
contract(W + 'buffer_to_int_array', returns='list[int]', requires=['arrok(self.bytes.data, self.bytes.pos)'], modifies=['self.bytes.pos'], uses=['ints_len', 'ints_at'],
         ensures=['fresh(result)', 'result == arrv(self.bytes.data, old(self.bytes.pos))', 'self.bytes.pos == arre(self.bytes.data, old(self.bytes.pos))'])
INFO = ['fresh(result)', 'fresh(result.a_unit_split)', 'fresh(result.b_unit_split)', 'fresh(result.word_structure)', 'fresh(result.synonym_group_ids)'] + [
    'result.%s is not result.%s' % (x, y) for x, y in (('a_unit_split', 'b_unit_split'), ('a_unit_split', 'word_structure'), ('b_unit_split', 'word_structure'),
                                                       ('a_unit_split', 'synonym_group_ids'), ('b_unit_split', 'synonym_group_ids'), ('word_structure', 'synonym_group_ids'))]
contract(W + 'get_word_info', args={'word_id': 'int'}, returns='WordInfo', requires=['word_ok(self, word_id)'], restores=['self.bytes.pos'],
         ensures=INFO + ['entry_is(result, self.bytes.data, self.offset, word_id, self.has_synonym_gid)'])
contract(W + 'size', returns='int', ensures=['result == self._word_size'], pure=True, spec_result='self._word_size')
READER = ['ints_len', 'ints_at'] + [W + x for x in ('word_id_to_offset', 'buffer_to_string_length', 'buffer_to_string', 'buffer_to_int_array', 'get_word_info', 'size')]
