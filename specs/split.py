"""Split modes: units of a word (C11)."""
from pyvc.api import *
from specs.morphemes import *

cls('Lattice', 'sudachipy.lattice.Lattice', {'size': 'int', 'capacity': 'int', 'end_lists': 'list[list[LatticeNode]]', 'grammar': 'Grammar', 'eos_params': 'list[int]', 'eos_node': 'LatticeNode?', 'connect_costs': 'View',
                                              'g_words': 'seq[LatticeNode]', 'g_oov': 'seq[LatticeNode]', 'g_ws': 'seq[int]', 'g_os': 'seq[int]'})
cls('Tokenizer', 'sudachipy.tokenizer.Tokenizer', {'_grammar': 'Grammar', '_lexicon': 'LexiconSet', '_lattice': 'Lattice', '_mode': 'SplitMode', '_oov_provider_plugins': 'list[Oov]', 'default_oov_provider': 'Oov', 'g_texts': 'seq[str]', 'g_modes': 'seq[SplitMode?]', 'g_out': 'seq[MorphemeList]'})
TK = 'sudachipy.tokenizer.Tokenizer.'


@spec
def hwl(s: 'LexiconSet', w: 'int') -> 'int':
    """headword length of word w"""
    return strn(s.lexicons[dic(w)].word_infos.bytes.data, e_h(s.lexicons[dic(w)].word_infos.bytes.data, e_p(s.lexicons[dic(w)].word_infos.bytes.data, s.lexicons[dic(w)].word_infos.offset, loc(w))))


SETR = ['LexiconSet.lexicons', 'list[Lex]', 'Lex.word_infos', 'WordInfoList.bytes', 'WordInfoList.offset', 'Mmap.data']


@spec(rec=True, reads=SETR)
def uoff(s: 'LexiconSet', us: 'seq[int]', k: 'int') -> 'int':
    """length of the first k units"""
    return 0 if k <= 0 else uoff(s, us, k - 1) + hwl(s, us[k - 1])


@spec
def unit_node(n: 'LatticeNode', s: 'LexiconSet', u: 'int', b: 'int', e: 'int'):
    """n stands for dictionary word u at bytes b to e"""
    return n._is_defined and n.extra_word_info is None and n.lexicon is s and n.word_id == u and n.begin == b and n.end == e and not n._is_oov


@spec
def units(wi: 'WordInfo', m: 'SplitMode') -> 'seq[int]':
    return seqof(wi.a_unit_split) if m == SplitMode.A else seqof(wi.b_unit_split)


@spec
def units_ok(s: 'LexiconSet', us: 'seq[int]', b: 'int'):
    """the units can be read and lie within range"""
    return (all(word_in(s, us[i]) for i in range(0, len(us))) and all(b + uoff(s, us, i) <= 2147483647 for i in range(0, len(us) + 1)))


@lemma(requires=['0 <= k', 'k <= len(us)', 'all(word_in(s, us[i]) for i in range(0, len(us)))'], ensures=['uoff(s, us, k) >= 0'], dec='k')
def uoff_pos(s: 'LexiconSet', us: 'seq[int]', k: 'int'):
    if k > 0:
        uoff_pos(s, us, k - 1)


SPLIT = dict(requires=['0 <= index', 'index < len(self.path)', 'self.path[index].begin >= 0'], args={'mode': 'SplitMode', 'index': 'int', 'wi': 'WordInfo'})
contract(ML + 'split', key=ML + 'split#one', match={}, returns='list[Morpheme]', ensures=['fresh(result)', 'len(result) == 1', 'at(result[0], self, index)'],
         args=SPLIT['args'], requires=SPLIT['requires'] + ['mode == SplitMode.C or len(units(wi, mode)) <= 1'])
contract(ML + 'split', key=ML + 'split#units', match={}, returns='MorphemeList', args=SPLIT['args'],
         requires=SPLIT['requires'] + ['mode != SplitMode.C', 'len(_us) > 1', 'units_ok(self.lexicon, _us, _b)'],
         lets={'_us': 'units(wi, mode)', '_b': 'self.path[index].begin'}, locals={'nodes': 'list[LatticeNode]'}, hints={'loop0.body': ['uoff_pos(self.lexicon, _us, _k + 1)', 'uoff_pos(self.lexicon, _us, _k)', 'assert _b + uoff(self.lexicon, _us, _k + 1) <= 2147483647']},
         inv={0: ['fresh(nodes)', 'len(nodes) == _k', 'offset == _b + uoff(self.lexicon, _us, _k)', 'all(fresh(nodes[i]) for i in range(0, _k))',
                  'all(unit_node(nodes[i], self.lexicon, _us[i], _b + uoff(self.lexicon, _us, i), _b + uoff(self.lexicon, _us, i + 1)) for i in range(0, _k))']},
         ensures=['fresh(result)', 'result.input_text is self.input_text', 'result.grammar is self.grammar', 'result.lexicon is self.lexicon', 'len(result.path) == len(_us)',
                  'all(unit_node(result.path[i], self.lexicon, _us[i], _b + uoff(self.lexicon, _us, i), _b + uoff(self.lexicon, _us, i + 1)) for i in range(0, len(_us)))'])


@spec
def ulist(n: 'LatticeNode', m: 'SplitMode') -> 'seq[int]':
    """the units of the word of the node for this mode"""
    return (units(UNK, m) if not n._is_defined else units(n.extra_word_info, m) if n.extra_word_info is not None else
            dunits(n.lexicon, n.word_id, 0 if m == SplitMode.A else 1))


@spec
def dunits(s: 'LexiconSet', w: 'int', k: 'int') -> 'seq[int]':
    return eunits(s.lexicons[dic(w)].word_infos, w, k)


@spec
def eunits(l: 'WordInfoList', w: 'int', k: 'int') -> 'seq[int]':
    return convu(unit_list(l.bytes.data, l.offset, loc(w), k), dic(w), len(unit_list(l.bytes.data, l.offset, loc(w), k)))


NODER = SETR + ['LatticeNode._is_defined', 'LatticeNode.extra_word_info', 'LatticeNode.lexicon', 'LatticeNode.word_id', 'WordInfo.a_unit_split', 'WordInfo.b_unit_split', 'list[int]']


@spec(rec=True, reads=NODER)
def ulists(p: 'seq[LatticeNode]', m: 'SplitMode', n: 'int') -> 'seq[seq[int]]':
    """the units of the first n nodes"""
    return [] if n <= 0 else ulists(p, m, n - 1) + [ulist(p[n - 1], m)]


@lemma(requires=['0 <= n'], ensures=['len(ulists(p, m, n)) == n'], dec='n', pats=['ulists(p, m, n)'])
def ulists_len(p: 'seq[LatticeNode]', m: 'SplitMode', n: 'int'):
    if n > 0:
        ulists_len(p, m, n - 1)


@lemma(requires=['0 <= i', 'i < n'], ensures=['ulists(p, m, n)[i] == ulist(p[i], m)'], dec='n', pats=['ulists(p, m, n)[i]'], uses=['ulists_len'])
def ulists_at(p: 'seq[LatticeNode]', m: 'SplitMode', n: 'int', i: 'int'):
    if i < n - 1:
        ulists_at(p, m, n - 1, i)


@spec(rec=True)
def pairs(i: 'int', n: 'int') -> 'seq[tuple[int,int]]':
    return [] if n <= 0 else pairs(i, n - 1) + [(i, n - 1)]


@spec(rec=True)
def refined(us: 'seq[seq[int]]', n: 'int') -> 'seq[tuple[int,int]]':
    """word k itself (k, -1), or its units (k, 0), (k, 1), ... if there are two or more, for the first n words"""
    return [] if n <= 0 else refined(us, n - 1) + ([(n - 1, 0 - 1)] if len(us[n - 1]) <= 1 else pairs(n - 1, len(us[n - 1])))


@lemma(requires=['0 <= n'], ensures=['len(pairs(i, n)) == n'], dec='n', pats=['pairs(i, n)'])
def pairs_len(i: 'int', n: 'int'):
    if n > 0:
        pairs_len(i, n - 1)


@lemma(requires=['0 <= j', 'j < n'], ensures=['pairs(i, n)[j] == (i, j)'], dec='n', pats=['pairs(i, n)[j]'], uses=['pairs_len'])
def pairs_at(i: 'int', n: 'int', j: 'int'):
    if j < n - 1:
        pairs_at(i, n - 1, j)


@spec
def ref_node(x: 'LatticeNode', n: 'LatticeNode', us: 'seq[int]', j: 'int', s: 'LexiconSet', b: 'int'):
    """x is node n itself, or its unit j"""
    return (x is n if j < 0 else unit_node(x, s, us[j], b + uoff(s, us, j), b + uoff(s, us, j + 1)))


@spec
def pair_ok(x: 'tuple[int,int]', us: 'seq[seq[int]]'):
    return 0 <= x[0] and x[0] < len(us) and 0 - 1 <= x[1] and x[1] < len(us[x[0]])


contract(TK + '_split_path', args={'path': 'list[LatticeNode]', 'mode': 'SplitMode'}, returns='list[LatticeNode]', uses=['pairs_at', 'pairs_len', 'ulists_len', 'ulists_at'],
         requires=['all(node_ok(path[i]) for i in range(0, len(path)))', 'all(path[i].begin >= 0 for i in range(0, len(path)))',
                   'all(implies(len(_us[i]) > 1, units_ok(self._lexicon, _us[i], path[i].begin)) for i in range(0, len(path)))'],
         locals={'new_path': 'list[LatticeNode]'},
         lets={'_p': 'seqof(path)', '_us': 'ulists(seqof(path), mode, len(path))', '_n0': 'len(path)'},
         inv={0: ['fresh(new_path)', 'new_path is not path', 'len(new_path) == len(refined(_us, _k))', 'all(allocated(new_path[r]) for r in range(0, len(new_path)))',
                  'all(pair_ok(refined(_us, _k)[r], _us) for r in range(0, len(new_path)))',
                  'all(ref_node(new_path[r], _p[refined(_us, _k)[r][0]], _us[refined(_us, _k)[r][0]], refined(_us, _k)[r][1], self._lexicon, _p[refined(_us, _k)[r][0]].begin) for r in range(0, len(new_path)))'],
              1: ['fresh(new_path)', 'new_path is not path', 'len(new_path) == len(_y0) + _k', 'offset == _p[_i].begin + uoff(self._lexicon, _us[_i], _k)', 'all(allocated(new_path[r]) for r in range(0, len(new_path)))',
                  'all(new_path[r] is _y0[r] for r in range(0, len(_y0)))',
                  'all(unit_node(new_path[len(_y0) + j], self._lexicon, _us[_i][j], _p[_i].begin + uoff(self._lexicon, _us[_i], j), _p[_i].begin + uoff(self._lexicon, _us[_i], j + 1)) for j in range(0, _k))']},
         hints={'loop1.before': ['_y0 = seqof(new_path)', '_i = _k', 'assert seqof(wids) == _us[_k]', 'assert units_ok(self._lexicon, _us[_k], _p[_k].begin)'],
                'loop1.body': ['assert 0 <= _us[_i][_k]', 'assert word_in(self._lexicon, _us[_i][_k])', 'assert _s[_k] == _us[_i][_k]', 'assert word_in(self._lexicon, _s[_k])', 'uoff_pos(self._lexicon, _us[_i], _k + 1)', 'uoff_pos(self._lexicon, _us[_i], _k)', 'assert _p[_i].begin + uoff(self._lexicon, _us[_i], _k + 1) <= 2147483647'],
                'loop1.exit': ['_u = _us[_i]', '_b = _p[_i].begin', '_r = refined(_us, _i + 1)', 'assert _r == refined(_us, _i) + pairs(_i, len(_u))',
                               'assert all(implies(r >= len(_y0), _r[r] == (_i, r - len(_y0))) for r in range(0, len(_r)))', 'assert all(implies(r < len(_y0), _r[r] == refined(_us, _i)[r]) for r in range(0, len(_r)))',
                               'assert all(implies(r >= len(_y0), unit_node(new_path[r], self._lexicon, _u[r - len(_y0)], _b + uoff(self._lexicon, _u, r - len(_y0)), _b + uoff(self._lexicon, _u, r - len(_y0) + 1))) for r in range(0, len(_r)))']},
         ensures=['implies(mode == SplitMode.C, result is path)', 'implies(mode != SplitMode.C, len(result) == len(refined(_us, _n0)))',
                  'implies(mode != SplitMode.C, all(ref_node(result[r], _p[refined(_us, _n0)[r][0]], _us[refined(_us, _n0)[r][0]], refined(_us, _n0)[r][1], self._lexicon, _p[refined(_us, _n0)[r][0]].begin) for r in range(0, len(result))))'])

prop('C11', ['uoff_pos', 'ulists_len', 'ulists_at', 'pairs_len', 'pairs_at', ML + 'split#one', ML + 'split#units', TK + '_split_path'] + READER +
     ['convu_len', 'convu_at', S + 'get_dictionary_id', S + 'get_word_id1', S + 'build_word_id', S + 'convert_split', S + 'get_word_info', L + 'get_word_info', N + 'get_word_info', N + 'get_begin'])
