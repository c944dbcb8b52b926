"""Kinds and versions of dictionary files, the header block (C19)."""
from pyvc.api import *
from specs.binary import *
from specs.input_text import *

R.consts.update(SYSTEM_1=0x7366d3f18bd111e7, SYSTEM_2=0xce9f011a92394434, USER_1=0xa50f31188bd211e7, USER_2=0x9fdeb5a90168d868, USER_3=0xca9811756ff64fb0)
globals().update(R.consts)


@spec
def sysver(v: 'int'):
    return v == SYSTEM_1 or v == SYSTEM_2


@spec
def userver(v: 'int'):
    return v == USER_1 or v == USER_2 or v == USER_3


VER = 'sudachipy.dictionarylib.dictionaryversion.'
contract(VER + 'is_dictionary', args={'version': 'int'}, returns='bool', ensures=['result == (sysver(version) or userver(version))'])
contract(VER + 'is_system_dictionary', args={'version': 'int'}, returns='bool', ensures=['result == sysver(version)'])
contract(VER + 'is_user_dictionary', args={'version': 'int'}, returns='bool', ensures=['result == userver(version)'])
contract(VER + 'has_grammar', args={'version': 'int'}, returns='bool', ensures=['result == (sysver(version) or version == USER_2 or version == USER_3)'])
contract(VER + 'has_synonym_group_ids', args={'version': 'int'}, returns='bool', ensures=['result == (version == SYSTEM_2 or version == USER_3)'])

cls('Header', 'sudachipy.dictionarylib.dictionaryheader.DictionaryHeader', {'version': 'int', 'create_time': 'int', 'description': 'str'})
H = 'sudachipy.dictionarylib.dictionaryheader.DictionaryHeader.'


@spec
def hdr_at(d: 'bytes', p: 'int', v: 'int', t: 'int', desc: 'str'):
    """a header block with these values at p"""
    return (p + 272 <= len(d) and frombytes(d[p:p + 8], False) == v and frombytes(d[p + 8:p + 16], False) == t
            and off(desc, len(desc)) <= 256 and d[p + 16:p + 16 + off(desc, len(desc))] == utf8(desc)
            and implies(off(desc, len(desc)) < 256, d[p + 16 + off(desc, len(desc))] == 0))


@spec(rec=True)
def nulpos(d: 'bytes', p: 'int', n: 'int') -> 'int':
    """length of the text at p: up to a zero byte, at most 256"""
    return n if n >= 256 or d[p + n] == 0 else nulpos(d, p, n + 1)


@spec
def nonul(t: 'str'):
    return all(ord(t[i]) != 0 for i in range(0, len(t)))


axiom('utf8_nonul', [('t', 'str'), ('k', 'int')], 'implies(nonul(t) and 0 <= k and k < len(utf8(t)), utf8(t)[k] != 0)', pats=['utf8(t)[k]'],
      note='only U+0000 has a zero byte in UTF-8')
axiom('utf8_back', [('t', 'str')], 'utf8dec(utf8(t)) == t and utf8ok(utf8(t))', pats=['utf8(t)'], note='decode inverts encode')

contract(H + '__init__', args={'version': 'int', 'create_time': 'int', 'description': 'str'},
         ensures=['self.version == version', 'self.create_time == create_time', 'self.description == description'])
contract(H + 'to_bytes', returns='bytes', uses=PATCH + TEXT,
         requires=['fits(self.version, 8, False)', '0 <= self.create_time', 'fits(self.create_time, 8, True)'],
         raises={'ValueError': 'blen(self.description) > 256'},
         ensures=['len(result) == 272', 'hdr_at(result, 0, self.version, self.create_time, self.description)', 'all(result[i] == 0 for i in range(16 + blen(self.description), 272))'])
for k, ty, data in (('', 'Mmap', 'bytes_.data'), ('#bytes', 'bytes', 'bytes_')):
    contract(H + 'from_bytes', key=H + 'from_bytes' + k, match={'bytes_': ty}, args={'bytes_': ty, 'offset': 'int'}, returns='Header',
             lets={'_d': data}, uses=TEXT,
             requires=['0 <= offset', 'offset + 272 <= len(_d)'],
             raises={'UnicodeDecodeError': None},
             ensures=['fresh(result)', 'result.version == frombytes(_d[offset:offset + 8], False)', 'result.create_time == frombytes(_d[offset + 8:offset + 16], False)',
                      'result.description == utf8dec(_d[offset + 16:offset + 16 + nulpos(_d, offset + 16, 0)])', 'utf8ok(_d[offset + 16:offset + 16 + nulpos(_d, offset + 16, 0)])'],
             inv={0: ['0 <= len_', 'len_ <= 256', 'offset == old(offset) + 16', 'nulpos(_d, offset, 0) == nulpos(_d, offset, len_)']})
contract(H + 'storage_size', returns='int', ensures=['result == 272'])
contract(H + 'is_system_dictionary', returns='bool', ensures=['result == sysver(self.version)'])
contract(H + 'is_user_dictionary', returns='bool', ensures=['result == userver(self.version)'])


@lemma(requires=['0 <= k', 'k <= n', 'n <= 256', 'n == 256 or d[p + n] == 0', 'all(d[q] != 0 for q in range(p + k, p + n))'], ensures=['nulpos(d, p, k) == n'], dec='n - k')
def nulpos_is(d: 'bytes', p: 'int', k: 'int', n: 'int'):
    if k < n:
        nulpos_is(d, p, k + 1, n)


@lemma(requires=['0 <= p', 'hdr_at(d, p, v, t, desc)', 'nonul(desc)'],
       ensures=['utf8dec(d[p + 16:p + 16 + nulpos(d, p + 16, 0)]) == desc', 'utf8ok(d[p + 16:p + 16 + nulpos(d, p + 16, 0)])'], uses=['off_pos'])
def header_back(d: 'bytes', p: 'int', v: 'int', t: 'int', desc: 'str'):
    assert all(d[p + 16:p + 16 + off(desc, len(desc))][i] != 0 for i in range(0, off(desc, len(desc))))
    assert all(d[i] != 0 for i in range(p + 16, p + 16 + off(desc, len(desc))))
    nulpos_is(d, p + 16, 0, off(desc, len(desc)))


prop('C19', PATCH + [VER + x for x in ('is_dictionary', 'is_system_dictionary', 'is_user_dictionary', 'has_grammar', 'has_synonym_group_ids')] +
     [H + x for x in ('__init__', 'to_bytes', 'from_bytes', 'from_bytes#bytes', 'storage_size', 'is_system_dictionary', 'is_user_dictionary')] + ['nulpos_is', 'header_back'])
