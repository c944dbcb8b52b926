"""Grammar section: parts of speech and connection matrix (C15)."""
from pyvc.api import *
from specs.entries import *

G = 'sudachipy.dictionarylib.grammar.Grammar.'


@spec(rec=True)
def spos(d: 'bytes', p: 'int', k: 'int') -> 'int':
    """position after k strings from p on"""
    return p if k <= 0 else stre(d, spos(d, p, k - 1))


@spec
def short(d: 'bytes', p: 'int') -> 'int':
    return frombytes(d[p:p + 2], True)


@spec
def g_end(d: 'bytes', o: 'int') -> 'int':
    """end of the parts of speech of the grammar at o"""
    return spos(d, o + 2, 6 * short(d, o))


@spec
def g_ok(d: 'bytes', o: 'int'):
    """a complete grammar section starts at o"""
    return (0 <= o and o + 2 <= len(d) and short(d, o) >= 0 and all(strok(d, spos(d, o + 2, k)) for k in range(0, 6 * short(d, o))) and 0 <= g_end(d, o) and g_end(d, o) + 4 <= len(d)
            and short(d, g_end(d, o)) >= 0 and short(d, g_end(d, o) + 2) >= 0 and g_end(d, o) + 4 + 2 * short(d, g_end(d, o)) * short(d, g_end(d, o) + 2) <= len(d))


@spec
def pos_is(ps: 'list[str]', d: 'bytes', p: 'int', i: 'int'):
    """ps are the six columns of part of speech i of the table at p"""
    return len(ps) == 6 and all(ps[j] == strv(d, spos(d, p, 6 * i + j)) for j in range(0, 6))


@spec
def mat_wf(v: 'View'):
    return v.item == 2 and v.rows > 0 and v.cols > 0 and v.base >= 0 and v.n == 2 * v.rows * v.cols and v.base + v.n <= len(v.src.data)


@spec
def mcost(v: 'View', left: 'int', right: 'int') -> 'int':
    """cost of the connection of a right id (left) and a left id (right)"""
    return frombytes(v.src.data[v.base + 2 * (right * v.cols + left):v.base + 2 * (right * v.cols + left) + 2], True)


contract(G + 'bytes_get_string', args={'bytes_': 'Mmap'}, returns='str', requires=['strok(bytes_.data, bytes_.pos)'], modifies=['bytes_.pos'],
         ensures=['result == strv(bytes_.data, old(bytes_.pos))', 'bytes_.pos == stre(bytes_.data, old(bytes_.pos))'])
contract(G + 'bytes_get_short', args={'bytes_': 'Mmap'}, returns='int', requires=['0 <= bytes_.pos', 'bytes_.pos + 2 <= len(bytes_.data)'], modifies=['bytes_.pos'],
         ensures=['result == short(bytes_.data, old(bytes_.pos))', 'bytes_.pos == old(bytes_.pos) + 2'])
contract(G + '__init__', args={'bytes_': 'Mmap', 'offset': 'int'}, requires=['g_ok(bytes_.data, offset)', '0 <= bytes_.pos', 'bytes_.pos <= len(bytes_.data)'], restores=['bytes_.pos'],
         modifies=['self.' + x for x in ('char_category', 'pos_list', '_matrix_view', 'storage_size', 'is_copied_connect_table', '_POS_DEPTH', '_BOS_PARAMETER', '_EOS_PARAMETER')],
         lets={'_d': 'bytes_.data', '_q': 'g_end(bytes_.data, offset)', '_nl': 'short(bytes_.data, g_end(bytes_.data, offset))', '_nr': 'short(bytes_.data, g_end(bytes_.data, offset) + 2)'},
         inv={0: ['fresh(self.pos_list)', 'len(self.pos_list) == _k', 'bytes_.pos == spos(_d, offset + 2, 6 * _k)', 'all(pos_is(self.pos_list[i], _d, offset + 2, i) for i in range(0, _k))',
                  'all(fresh(self.pos_list[i]) for i in range(0, _k))'],
              1: ['fresh(pos)', 'pos is not self.pos_list', 'len(pos) == _k', 'bytes_.pos == spos(_d, offset + 2, 6 * i + _k)', 'all(pos[j] == strv(_d, spos(_d, offset + 2, 6 * i + j)) for j in range(0, _k))']},
         locals={'pos': 'list[str]'},
         ensures=['len(self.pos_list) == short(_d, offset)', 'all(pos_is(self.pos_list[i], _d, offset + 2, i) for i in range(0, len(self.pos_list)))',
                  'self.storage_size == _q + 4 + 2 * _nl * _nr - offset', 'fresh(self.pos_list)', 'self.char_category is None',
                  'self._matrix_view.src is bytes_', 'self._matrix_view.base == _q + 4', 'implies(_nl > 0 and _nr > 0, mat_wf(self._matrix_view) and self._matrix_view.rows == _nr and self._matrix_view.cols == _nl)'])
contract(G + 'get_storage_size', returns='int', ensures=['result == self.storage_size'])
contract(G + 'get_part_of_speech_size', returns='int', ensures=['result == len(self.pos_list)'])


@lemma(requires=['0 <= l', 'l < c', '0 <= x', 'x < c', '0 <= r', '0 <= y', 'l != x or r != y'], ensures=['r * c + l != y * c + x'])
def cell_apart(c: 'int', l: 'int', r: 'int', x: 'int', y: 'int'):
    if r < y:
        assert r * c + c <= y * c
    if r > y:
        assert y * c + c <= r * c


@lemma(requires=['0 <= l', 'l < c', '0 <= r', 'r < n'], ensures=['0 <= r * c + l', 'r * c + l < n * c'])
def cell_in(c: 'int', n: 'int', l: 'int', r: 'int'):
    assert r * c + c <= n * c


IDS = ['mat_wf(self._matrix_view)', '0 <= left', 'left < self._matrix_view.cols', '0 <= right', 'right < self._matrix_view.rows']
contract(G + 'get_connect_cost', args={'left': 'int', 'right': 'int'}, returns='int', requires=IDS, ensures=['result == mcost(self._matrix_view, left, right)'])
contract(G + 'set_connect_cost', args={'left': 'int', 'right': 'int', 'cost': 'int'}, requires=IDS, modifies=['self._matrix_view.src.data'], raises={'ValueError': 'cost < -32768 or cost > 32767'}, uses=PATCH,
         hints={'exit': ['cell_in(self._matrix_view.cols, self._matrix_view.rows, left, right)']},
         ensures=['mcost(self._matrix_view, left, right) == cost', 'len(self._matrix_view.src.data) == old(len(self._matrix_view.src.data))',
                  'all(implies(p < self._matrix_view.base + 2 * (right * self._matrix_view.cols + left) or p >= self._matrix_view.base + 2 * (right * self._matrix_view.cols + left) + 2, self._matrix_view.src.data[p] == old(self._matrix_view.src.data)[p]) for p in range(0, len(self._matrix_view.src.data)))'])
contract(G + 'add_pos_list', args={'grammar': 'Grammar'}, modifies=['self.pos_list[]'], ensures=['self.pos_list == old(seqof(self.pos_list)) + old(seqof(grammar.pos_list))'])
contract(G + 'set_character_category', args={'char_category': 'CharacterCategory'}, modifies=['self.char_category'], ensures=['self.char_category is char_category'])
prop('C15', PATCH + ['cell_apart', 'cell_in'] + [G + x for x in ('__init__', 'bytes_get_string', 'bytes_get_short', 'get_storage_size', 'get_part_of_speech_size', 'get_connect_cost', 'set_connect_cost', 'add_pos_list')])
