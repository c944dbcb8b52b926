"""OOV providers (C09)."""
from pyvc.api import *
from specs.lattice import *

cls('SimpleOov', 'sudachipy.plugin.oov.simple_oov_plugin.SimpleOovPlugin', {'left_id': 'int', 'right_id': 'int', 'cost': 'int', 'oov_pos_id': 'int', '__oov_pos_strings': 'list[str]'}, bases=('Oov',))
cls('OovRule', 'sudachipy.plugin.oov.mecab_oov_plugin.MeCabOovPlugin.OOV', {'left_id': 'int', 'right_id': 'int', 'cost': 'int', 'pos_id': 'int'})
cls('CatInfo', 'sudachipy.plugin.oov.mecab_oov_plugin.MeCabOovPlugin.CategoryInfo', {'type_': 'CategoryType', 'is_invoke': 'bool', 'is_group': 'bool', 'length': 'int'})
cls('MeCabOov', 'sudachipy.plugin.oov.mecab_oov_plugin.MeCabOovPlugin',
    {'__chardef_filename': 'str', '__unkdef_filename': 'str', 'categories': 'dict[CategoryType,CatInfo]', 'oov_list': 'dict[CategoryType,list[OovRule]]'}, bases=('Oov',))
OP = 'sudachipy.plugin.oov.oov_provider_plugin.OovProviderPlugin.'
SP = 'sudachipy.plugin.oov.simple_oov_plugin.SimpleOovPlugin.'
MP = 'sudachipy.plugin.oov.mecab_oov_plugin.MeCabOovPlugin.'


@spec
def i32(x: 'int'):
    return 0 - MAXINT - 1 <= x and x <= MAXINT


@spec
def nbyte(x: 'InputText') -> 'int':
    return blen(x.modified_text)


@spec
def piece(x: 'InputText', p: 'int', q: 'int') -> 'str':
    """the text between two byte positions"""
    return x.modified_text[chof(x.modified_text, p):chof(x.modified_text, q)]


@spec
def charpos(x: 'InputText', p: 'int'):
    """p is a character boundary of the text"""
    return 0 <= p and p <= nbyte(x) and off(x.modified_text, chof(x.modified_text, p)) == p


@spec
def oov_info(w: 'WordInfo', s: 'str', n: 'int', pos: 'int'):
    """the word information of an OOV word: its text as surface, normalized form and dictionary form"""
    return (w.surface == s and w.normalized_form == s and w.dictionary_form == s and w.reading_form == '' and w.head_word_length == n and w.pos_id == pos and w.dictionary_form_word_id == 0 - 1
            and len(w.a_unit_split) == 0 and len(w.b_unit_split) == 0 and len(w.word_structure) == 0 and len(w.synonym_group_ids) == 0)


@spec
def unset(n: 'LatticeNode'):
    """not yet part of a lattice"""
    return n.best_previous_node is None and not n.is_connected_to_bos


@spec
def oov_node(n: 'LatticeNode', l: 'int', r: 'int', c: 'int'):
    return n._is_oov and n._is_defined and n.extra_word_info is not None and n.left_id == l and n.right_id == r and n.cost == c and unset(n)


@spec
def covers(n: 'LatticeNode', x: 'InputText', o: 'int'):
    """n is an OOV word that stands for a non-empty stretch of whole characters from o on"""
    return (n._is_oov and n._is_defined and n.extra_word_info is not None and unset(n) and n.extra_word_info.head_word_length > 0 and charpos(x, o + n.extra_word_info.head_word_length)
            and oov_info(n.extra_word_info, piece(x, o, o + n.extra_word_info.head_word_length), n.extra_word_info.head_word_length, n.extra_word_info.pos_id))


@spec
def in_ids(l: 'int', r: 'int', p: 'Oov'):
    return 0 <= l and l < p.g_rows and p.g_rows <= 32768 and 0 <= r and r < p.g_cols and p.g_cols <= 32768


@spec
def nparams(n: 'LatticeNode', p: 'Oov'):
    return 0 <= n.left_id and n.left_id < p.g_rows and 0 <= n.right_id and n.right_id < p.g_cols and i32(n.cost)


PROV = dict(args={'input_text': 'InputText', 'offset': 'int', 'has_other_words': 'bool'}, returns='list[LatticeNode]',
            requires=['it_wf(input_text)', '0 <= offset', 'offset < nbyte(input_text)', 'charpos(input_text, offset)'],
            ensures=['fresh(result)', 'all(fresh(result[i]) for i in range(0, len(result)))', 'all(result[i] is not result[j] for i in range(0, len(result)) for j in range(0, i))',
                     'all(covers(result[i], input_text, offset) for i in range(0, len(result)))', 'all(nparams(result[i], self) for i in range(0, len(result)))'])
# what every provider promises; each provider of the repository is checked against it below
contract(OP + 'provide_oov', args=PROV['args'], returns=PROV['returns'], requires=PROV['requires'], ensures=PROV['ensures'], trusted=True)
contract(OP + 'get_oov', args=PROV['args'], returns=PROV['returns'], requires=PROV['requires'] + ['nbyte(input_text) <= MAXINT'],
         inv={0: ['all(nodes[i].begin == offset and nodes[i].end == offset + nodes[i].extra_word_info.head_word_length for i in range(0, _k))']},
         modifies=['input_text.g_asks', 'input_text.g_given'], hints={'exit': ['input_text.g_asks = input_text.g_asks + [(self, offset, has_other_words, len(result))]', 'input_text.g_given = input_text.g_given + seqof(result)']},
         ensures=PROV['ensures'] + ['input_text.g_asks == old(input_text.g_asks) + [(self, offset, has_other_words, len(result))]', 'input_text.g_given == old(input_text.g_given) + seqof(result)',
                                    'all(result[i].begin == offset and result[i].end == offset + result[i].extra_word_info.head_word_length for i in range(0, len(result)))'])
contract(SP + 'provide_oov', args=PROV['args'], returns=PROV['returns'], requires=PROV['requires'] + ['in_ids(self.left_id, self.right_id, self)', 'i32(self.cost)'], uses=TEXT,
         ensures=PROV['ensures'] + ['len(result) == (0 if has_other_words else 1)', 'all(oov_node(result[i], self.left_id, self.right_id, self.cost) for i in range(0, len(result)))',
                                    'all(result[i].extra_word_info.pos_id == self.oov_pos_id for i in range(0, len(result)))',
                                    'all(offset + result[i].extra_word_info.head_word_length == nbyte(input_text) or bow(input_text, offset + result[i].extra_word_info.head_word_length) for i in range(0, len(result)))',
                                    'all(not bow(input_text, p) for i in range(0, len(result)) for p in range(offset + 1, offset + result[i].extra_word_info.head_word_length))'])


# ---------------------------------------------------------------- rules of unk.def
@spec
def runlen(x: 'InputText', o: 'int') -> 'int':
    """bytes from o to the end of the run of characters that share a category"""
    return off(x.modified_text, rend(seqof(x.char_categories), chof(x.modified_text, o))) - o


@spec(rec=True, reads=['InputText.modified_text'])
def plen(x: 'InputText', o: 'int', i: 'int') -> 'int':
    """bytes of the next i characters"""
    return off(x.modified_text, min(chof(x.modified_text, o) + i, len(x.modified_text))) - o


@spec(rec=True)
def each(rs: 'seq[OovRule]', l: 'int', n: 'int') -> 'seq[tuple[OovRule,int]]':
    """a word of l bytes for each of the first n rules"""
    return [] if n <= 0 else each(rs, l, n - 1) + [(rs[n - 1], l)]


@spec(rec=True, reads=['InputText.modified_text'])
def prefixes(x: 'InputText', o: 'int', rs: 'seq[OovRule]', top: 'int', n: 'int') -> 'seq[tuple[OovRule,int]]':
    """words for the prefixes of 1 to n characters that are no longer than top bytes"""
    return [] if n <= 0 else prefixes(x, o, rs, top, n - 1) + (each(rs, plen(x, o, n), len(rs)) if plen(x, o, n) <= top else [])


@spec
def rules(m: 'MeCabOov', c: 'CategoryType') -> 'seq[OovRule]':
    return seqof(m.oov_list[c])


@spec
def offered(x: 'InputText', o: 'int', m: 'MeCabOov', c: 'CategoryType', has: 'bool') -> 'seq[tuple[OovRule,int]]':
    """the words of category c: the whole run if it groups, then the prefixes (shorter than the run if it groups)"""
    return ([] if c not in m.categories or c not in m.oov_list or (has and not m.categories[c].is_invoke) else
            each(rules(m, c), runlen(x, o), len(rules(m, c))) + prefixes(x, o, rules(m, c), runlen(x, o) - 1, m.categories[c].length) if m.categories[c].is_group else
            prefixes(x, o, rules(m, c), runlen(x, o), m.categories[c].length))


MREADS = ['InputText.modified_text', 'InputText.char_categories', 'list[pset[CategoryType]]', 'MeCabOov.categories', 'MeCabOov.oov_list', 'dict[CategoryType,CatInfo]', 'dict[CategoryType,list[OovRule]]', 'CatInfo.is_invoke', 'CatInfo.is_group', 'CatInfo.length', 'list[OovRule]']


@spec(rec=True, reads=MREADS)
def offers(x: 'InputText', o: 'int', m: 'MeCabOov', cs: 'seq[CategoryType]', has: 'bool', n: 'int') -> 'seq[tuple[OovRule,int]]':
    """the words of the first n categories"""
    return [] if n <= 0 else offers(x, o, m, cs, has, n - 1) + offered(x, o, m, cs[n - 1], has)


@spec
def mecab_wf(m: 'MeCabOov'):
    return (all(implies(c in m.categories, m.categories[c].type_ == c) for c in CategoryType)
            and all(implies(c in m.oov_list, all(in_ids(m.oov_list[c][j].left_id, m.oov_list[c][j].right_id, m) and i32(m.oov_list[c][j].cost) for j in range(0, len(m.oov_list[c])))) for c in CategoryType))


@spec
def is_offer(n: 'LatticeNode', x: 'InputText', o: 'int', f: 'tuple[OovRule,int]'):
    return oov_node(n, f[0].left_id, f[0].right_id, f[0].cost) and oov_info(n.extra_word_info, piece(x, o, o + f[1]), f[1], f[0].pos_id) and f[1] > 0 and f[1] <= runlen(x, o) and charpos(x, o + f[1])


@lemma(requires=['0 <= n'], ensures=['len(each(rs, l, n)) == n'], dec='n', pats=['each(rs, l, n)'])
def each_len(rs: 'seq[OovRule]', l: 'int', n: 'int'):
    if n > 0:
        each_len(rs, l, n - 1)


@lemma(requires=['0 <= k', 'k <= n', 'all(plen(x, o, i) > top for i in range(k + 1, n + 1))'], ensures=['prefixes(x, o, rs, top, n) == prefixes(x, o, rs, top, k)'], dec='n')
def prefixes_end(x: 'InputText', o: 'int', rs: 'seq[OovRule]', top: 'int', n: 'int', k: 'int'):
    if n > k:
        prefixes_end(x, o, rs, top, n - 1, k)
        assert plen(x, o, n) > top
        assert prefixes(x, o, rs, top, n) == prefixes(x, o, rs, top, n - 1) + []


contract(MP + 'get_oov_node', args={'text': 'str', 'oov': 'OovRule', 'length': 'int'}, returns='LatticeNode', requires=['i32(oov.left_id)', 'i32(oov.right_id)', 'i32(oov.cost)'],
         ensures=['fresh(result)', 'oov_node(result, oov.left_id, oov.right_id, oov.cost)', 'oov_info(result.extra_word_info, text, length, oov.pos_id)', 'fresh(result.extra_word_info)'])
ALL = 'all(nparams(nodes[i], self) for i in range(0, len(nodes))) and fresh(nodes) and all(fresh(nodes[i]) for i in range(0, len(nodes))) and all(nodes[i] is not nodes[j] for i in range(0, len(nodes)) for j in range(0, i))'
WORDS = 'len(nodes) == len(%s)', 'all(is_offer(nodes[i], _x, _o, (%s)[i]) for i in range(0, len(nodes)))'
contract(MP + 'provide_oov', args=PROV['args'], returns=PROV['returns'], requires=PROV['requires'] + ['mecab_wf(self)'], uses=TEXT + ['each_len', 'rend_range'], locals={'nodes': 'list[LatticeNode]'},
         lets={'_cs': 'seqof(input_text.char_categories[chof(input_text.modified_text, offset)])', '_x': 'input_text', '_o': 'offset'},
         hints={'loop0.body': ['_f = offers(_x, _o, self, _cs, has_other_words, _k)', '_i = _k', '_c = type_', 'assert _c == _cs[_k]', 'assert offers(_x, _o, self, _cs, has_other_words, _k + 1) == _f + offered(_x, _o, self, _c, has_other_words)'],
                'loop1.before': ['_rs = seqof(oovs)'],
                'loop2.before': ['_rs = seqof(oovs)', '_g = _f + each(_rs, length, len(_rs)) if cinfo.is_group else _f'],
                'loop2.body': ['_h = _g + prefixes(_x, _o, _rs, llength, _k)', '_z = _k'],
                'loop3.before': ['assert plen(_x, _o, _z + 1) == sublength', 'assert _h + each(_rs, sublength, 0) == _h'],
                'loop3.exit': ['assert _h + each(_rs, sublength, len(_rs)) == _g + prefixes(_x, _o, _rs, llength, _z + 1)'],
                'loop2.break': ['prefixes_end(_x, _o, _rs, llength, cinfo.length, _z)'],
                'loop2.exit': ['assert _g + prefixes(_x, _o, _rs, llength, cinfo.length) == _f + offered(_x, _o, self, _c, has_other_words)']},
         inv={0: [ALL] + [w % ((('offers(_x, _o, self, _cs, has_other_words, _k)'),) * w.count('%')) for w in WORDS],
              1: [ALL] + [w % ((('_f + each(_rs, length, _k)'),) * w.count('%')) for w in WORDS],
              2: [ALL] + [w % ((('_g + prefixes(_x, _o, _rs, llength, _k)'),) * w.count('%')) for w in WORDS],
              3: [ALL] + [w % ((('_h + each(_rs, sublength, _k)'),) * w.count('%')) for w in WORDS]},
         ensures=PROV['ensures'] + ['len(result) == len(offers(_x, _o, self, _cs, has_other_words, len(_cs)))', 'all(is_offer(result[i], _x, _o, offers(_x, _o, self, _cs, has_other_words, len(_cs))[i]) for i in range(0, len(result)))'])
prop('C09', ['off_mono', 'off_pos', 'chs_char', 'chof_char', 'chof_unique', 'chof_off', 'chof_mono', 'rstart_in', 'rend_in', 'rend_range', 'each_len', 'prefixes_end', OP + 'get_oov', SP + 'provide_oov', MP + 'get_oov_node', MP + 'provide_oov',
             B + 'get_char_category_continuous_length', B + 'get_char_category_continuities', 'run_next', 'rend_all', 'inall_empty'] +
     [I + x for x in ('get_substring', 'get_char_category_continuous_length', 'get_char_category_types', 'get_code_points_offset_length', 'get_word_candidate_length', 'can_bow')])
