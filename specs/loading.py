"""Reading whole dictionary files, assembling the dictionaries (C18, C19, C24)."""
from pyvc.api import *
from specs.grammar import *
from specs.dictionary_files import *
from specs.costs import *


@spec
def u32(d: 'bytes', p: 'int') -> 'int':
    return frombytes(d[p:p + 4], False)


@spec(opaque=True)
def x_tab(d: 'bytes', o: 'int') -> 'int':
    """position of the word id table of the lexicon at o"""
    return o + 4 + 4 * u32(d, o)


@spec(opaque=True)
def x_prm(d: 'bytes', o: 'int') -> 'int':
    return x_tab(d, o) + 4 + u32(d, x_tab(d, o))


@spec(opaque=True)
def x_inf(d: 'bytes', o: 'int') -> 'int':
    return x_prm(d, o) + 4 + 6 * u32(d, x_prm(d, o))


@spec
def lex_fits(d: 'bytes', o: 'int'):
    """the sections of the lexicon at o lie in the file"""
    return 0 <= o and o + 4 <= len(d) and x_tab(d, o) + 4 <= len(d) and x_prm(d, o) + 4 <= len(d) and x_inf(d, o) <= len(d)


@spec
def lex_at(l: 'Lex', m: 'Mmap', o: 'int', syn: 'bool'):
    """l is the lexicon at o of the map"""
    return (l.trie.cells == m.data[o + 4:x_tab(m.data, o)] and tab_wf(l.word_id_table) and l.word_id_table._bytes_view.src is m and l.word_id_table._bytes_view.base == x_tab(m.data, o) + 4
            and l.word_id_table._bytes_view.n == u32(m.data, x_tab(m.data, o)) and prm_wf(l.word_params) and l.word_params._array_view.src is m and l.word_params._array_view.base == x_prm(m.data, o) + 4
            and l.word_params.size == u32(m.data, x_prm(m.data, o)) and l.word_infos.bytes is m and l.word_infos.offset == x_inf(m.data, o) and l.word_infos._word_size == l.word_params.size
            and l.word_infos.has_synonym_gid == syn)


contract(W + '__init__', args={'bytes_': 'Mmap', 'offset': 'int', 'word_size': 'int', 'has_synonym_gid': 'bool'},
         ensures=['self.bytes is bytes_', 'self.offset == offset', 'self._word_size == word_size', 'self.has_synonym_gid == has_synonym_gid'])
contract(L + '__init__', args={'bytes_': 'Mmap', 'offset': 'int', 'has_synonym_gid': 'bool'}, requires=['lex_fits(bytes_.data, offset)'], modifies=['self.trie', 'self.word_id_table', 'self.word_params', 'self.word_infos', 'bytes_.pos'],
         ensures=['lex_at(self, bytes_, offset, has_synonym_gid)', '0 <= bytes_.pos', 'bytes_.pos <= len(bytes_.data)'])

BD = D + 'binarydictionary.BinaryDictionary.'
cls('BinaryDictionary', D + 'binarydictionary.BinaryDictionary', {'_bytes': 'Mmap', '_grammar': 'Grammar?', '_header': 'Header', '_lexicon': 'Lex'})


@spec
def hasg(v: 'int'):
    return sysver(v) or v == USER_2 or v == USER_3


@spec
def hassyn(v: 'int'):
    return v == SYSTEM_2 or v == USER_3


@spec
def vers(d: 'bytes') -> 'int':
    return frombytes(d[0:8], False)


@spec
def lexpos(d: 'bytes') -> 'int':
    """position of the lexicon in a dictionary file"""
    return gram_end(d) if hasg(vers(d)) else 272


@spec(opaque=True)
def gram_end(d: 'bytes') -> 'int':
    return g_end(d, 272) + 4 + 2 * short(d, g_end(d, 272)) * short(d, g_end(d, 272) + 2)


@spec
def file_ok(d: 'bytes'):
    """a file of a known version whose sections are complete"""
    return 272 <= len(d) and implies(sysver(vers(d)) or userver(vers(d)), implies(hasg(vers(d)), g_ok(d, 272)) and lex_fits(d, lexpos(d)))


@spec
def read_ok(m: 'Mmap', g: 'Grammar?', h: 'Header', l: 'Lex', d: 'bytes'):
    """map, grammar, header and lexicon are those of the file with content d"""
    return (m.data == d and h.version == vers(d) and (g is not None) == hasg(vers(d)) and lex_at(l, m, lexpos(d), hassyn(vers(d))) and 0 <= m.pos and m.pos <= len(d)
            and implies(g is not None, gram_is(g, m)))


@spec
def gram_is(g: 'Grammar', m: 'Mmap'):
    """g is the grammar of the file in the map"""
    return (len(g.pos_list) == short(m.data, 272) and all(pos_is(g.pos_list[i], m.data, 274, i) for i in range(0, len(g.pos_list)))
            and g._matrix_view.src is m and g._matrix_view.base == g_end(m.data, 272) + 4)


contract(BD + '_read_dictionary', args={'filename': 'str', 'access': 'int'}, returns='tuple[Mmap,Grammar?,Header,Lex]', requires=['file_ok(fdata(fdof(filename)))'],
         raises={'Exception': 'not sysver(vers(_d)) and not userver(vers(_d))', 'UnicodeDecodeError': None}, lets={'_d': 'fdata(fdof(filename))'},
         ensures=['sysver(vers(_d)) or userver(vers(_d))', 'read_ok(result[0], result[1], result[2], result[3], _d)', 'fresh(result[0])', 'fresh(result[3])', 'fresh(result[2])', 'implies(result[1] is not None, fresh(result[1]))'])
for f, v, o in (('from_system_dictionary', 'sysver', 'userver'), ('from_user_dictionary', 'userver', 'sysver')):
    contract(BD + f, args={'filename': 'str'}, returns='BinaryDictionary', requires=['file_ok(fdata(fdof(filename)))'], raises={'Exception': 'not sysver(vers(_d)) and not userver(vers(_d))', 'UnicodeDecodeError': None, 'OSError': '%s(vers(_d))' % o},
             lets={'_d': 'fdata(fdof(filename))'},
             ensures=['%s(vers(_d))' % v, 'fresh(result)', 'read_ok(result._bytes, result._grammar, result._header, result._lexicon, _d)', 'fresh(result._bytes)', 'fresh(result._lexicon)',
                      'implies(result._grammar is not None, fresh(result._grammar))'])

FILES = [P + '__init__', P + 'storage_size', P + 'get_size', T + '__init__', T + 'storage_size', W + '__init__', L + '__init__', G + '__init__', G + 'get_storage_size', G + 'bytes_get_string', G + 'bytes_get_short',
         BD + '_read_dictionary', BD + 'from_system_dictionary', BD + 'from_user_dictionary']
prop('C19', FILES)
prop('C16', [L + '__init__'])
prop('C24', FRAMES + READER + PRM + [P + 'set_cost', ML + 'get_internal_cost', L + 'calculate_cost'])
