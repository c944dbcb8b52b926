"""What the lattice receives (C08)."""
from pyvc.api import *
from specs.oov import *
from specs.lexicon import *

HITS = 'seq[tuple[int,int]]'


@lemma(requires=['0 <= i', 'i < len(found(d, p, h, o, k))', '0 <= k', 'all(0 <= h[j][0] and isbyte(d[p + h[j][0]]) and 1 <= h[j][1] and h[j][1] <= m for j in range(0, k))'],
       ensures=['o < found(d, p, h, o, k)[i][1]', 'found(d, p, h, o, k)[i][1] <= o + m'], dec='k', uses=['ids_at', 'ids_len'])
def found_ends(d: 'bytes', p: 'int', h: 'seq[tuple[int,int]]', o: 'int', k: 'int', i: 'int', m: 'int'):
    if k > 0:
        if i < len(found(d, p, h, o, k - 1)):
            found_ends(d, p, h, o, k - 1, i, m)
        else:
            assert found(d, p, h, o, k)[i] == ids(d, p + h[k - 1][0], h[k - 1][1] + o, d[p + h[k - 1][0]])[i - len(found(d, p, h, o, k - 1))]


@lemma(requires=['idx_wf(l)', '0 <= o', 'o <= len(text)', '0 <= i', 'i < len(lex_hits(l, text, o))'],
       ensures=['o < lex_hits(l, text, o)[i][1]', 'lex_hits(l, text, o)[i][1] <= len(text)', '0 <= lex_hits(l, text, o)[i][0]', 'lex_hits(l, text, o)[i][0] < 268435456'], uses=['cps_at', 'hits_small'])
def lex_hit(l: 'Lex', text: 'bytes', o: 'int', i: 'int'):
    assert hits_ok(l.word_id_table._bytes_view.src.data, l.word_id_table._bytes_view.base, l.word_id_table._bytes_view.n, cps(l.trie.cells, text[o:], len(text) - o), len(cps(l.trie.cells, text[o:], len(text) - o)))
    found_ends(l.word_id_table._bytes_view.src.data, l.word_id_table._bytes_view.base, cps(l.trie.cells, text[o:], len(text) - o), o, len(cps(l.trie.cells, text[o:], len(text) - o)), i, len(text) - o)


@spec
def hit_in(ls: 'seq[Lex]', text: 'bytes', o: 'int', h: 'tuple[int,int]'):
    """a word of the set that ends after o and within the text"""
    return 0 <= h[0] and h[0] < 4294967296 and dic(h[0]) < len(ls) and o < h[1] and h[1] <= len(text)


@lemma(requires=['all(idx_wf(ls[j]) for j in range(0, len(ls)))', 'len(ls) <= 16', '0 <= o', 'o <= len(text)', '0 <= d', 'd < len(ls)', '0 <= i', 'i < len(lex_hits(ls[d], text, o))'],
       ensures=['hit_in(ls, text, o, (gid(d, lex_hits(ls[d], text, o)[i][0]), lex_hits(ls[d], text, o)[i][1]))'])
def tag_hit(ls: 'seq[Lex]', text: 'bytes', o: 'int', d: 'int', i: 'int'):
    lex_hit(ls[d], text, o, i)
    ids_unique(d, lex_hits(ls[d], text, o)[i][0], d, lex_hits(ls[d], text, o)[i][0])


@lemma(requires=['all(idx_wf(ls[j]) for j in range(0, len(ls)))', 'len(ls) <= 16', '0 <= o', 'o <= len(text)', '0 <= k', 'k < len(ls)', '0 <= i', 'i < len(user_hits(ls, text, o, k))'],
       ensures=['hit_in(ls, text, o, user_hits(ls, text, o, k)[i])'], dec='k', uses=['tagged_at', 'tagged_len'])
def user_hit(ls: 'seq[Lex]', text: 'bytes', o: 'int', k: 'int', i: 'int'):
    if k > 0:
        if i < len(user_hits(ls, text, o, k - 1)):
            user_hit(ls, text, o, k - 1, i)
        else:
            assert user_hits(ls, text, o, k)[i] == tagged(lex_hits(ls[k], text, o), k, len(lex_hits(ls[k], text, o)))[i - len(user_hits(ls, text, o, k - 1))]
            tag_hit(ls, text, o, k, i - len(user_hits(ls, text, o, k - 1)))


@lemma(requires=['all(idx_wf(ls[j]) for j in range(0, len(ls)))', '1 <= len(ls)', 'len(ls) <= 16', '0 <= o', 'o <= len(text)', '0 <= i'],
       ensures=['implies(i < len(set_hits(ls, text, o)), hit_in(ls, text, o, set_hits(ls, text, o)[i]))'], uses=['tagged_at', 'tagged_len'])
def set_hit(ls: 'seq[Lex]', text: 'bytes', o: 'int', i: 'int'):
    if i < len(user_hits(ls, text, o, len(ls) - 1)):
        user_hit(ls, text, o, len(ls) - 1, i)
    elif i < len(set_hits(ls, text, o)):
        assert set_hits(ls, text, o)[i] == tagged(lex_hits(ls[0], text, o), 0, len(lex_hits(ls[0], text, o)))[i - len(user_hits(ls, text, o, len(ls) - 1))]
        tag_hit(ls, text, o, 0, i - len(user_hits(ls, text, o, len(ls) - 1)))


# ---------------------------------------------------------------- what belongs into the lattice
@spec
def okend(x: 'InputText', e: 'int'):
    """a word may end at byte e"""
    return e >= nbyte(x) or bow(x, e)


@spec(rec=True, reads=['InputText.modified_text', 'InputText.char_categories', 'list[pset[CategoryType]]'])
def nok(x: 'InputText', h: 'seq[tuple[int,int]]', n: 'int') -> 'int':
    """how many of the first n hits end where a word may end"""
    return 0 if n <= 0 else nok(x, h, n - 1) + (1 if okend(x, h[n - 1][1]) else 0)


@lemma(requires=['0 <= n'], ensures=['0 <= nok(x, h, n)', 'nok(x, h, n) <= n'], dec='n', pats=['nok(x, h, n)'])
def nok_pos(x: 'InputText', h: 'seq[tuple[int,int]]', n: 'int'):
    if n > 0:
        nok_pos(x, h, n - 1)


@lemma(requires=['0 <= m', 'm < k', 'okend(x, h[m][1])'], ensures=['nok(x, h, m) < nok(x, h, k)'], dec='k', pats=['nok(x, h, m), nok(x, h, k)'])
def nok_less(x: 'InputText', h: 'seq[tuple[int,int]]', m: 'int', k: 'int'):
    nok_pos(x, h, m)
    if m < k - 1:
        nok_less(x, h, m, k - 1)


@spec
def word_node(n: 'LatticeNode', s: 'LexiconSet', w: 'int', b: 'int', e: 'int'):
    """n is dictionary word w at bytes b to e, with the connection ids and the cost of its entry"""
    return (n._is_defined and not n._is_oov and n.extra_word_info is None and n.lexicon is s and n.word_id == w and n.begin == b and n.end == e
            and n.left_id == prm(pdata(s, w), pbase(s, w), loc(w), 0) and n.right_id == prm(pdata(s, w), pbase(s, w), loc(w), 1) and n.cost == prm(pdata(s, w), pbase(s, w), loc(w), 2))


@spec
def pdata(s: 'LexiconSet', w: 'int') -> 'bytes':
    return s.lexicons[dic(w)].word_params._array_view.src.data


@spec
def pbase(s: 'LexiconSet', w: 'int') -> 'int':
    return s.lexicons[dic(w)].word_params._array_view.base


@spec
def sound(s: 'LexiconSet', v: 'View', w: 'int'):
    """word w has parameters, with ids of the matrix"""
    return (prm_wf(s.lexicons[dic(w)].word_params) and loc(w) < s.lexicons[dic(w)].word_params.size and 0 <= prm(pdata(s, w), pbase(s, w), loc(w), 0) and prm(pdata(s, w), pbase(s, w), loc(w), 0) < v.rows
            and 0 <= prm(pdata(s, w), pbase(s, w), loc(w), 1) and prm(pdata(s, w), pbase(s, w), loc(w), 1) < v.cols)


@spec
def here(l: 'Lattice', x: 'InputText', i: 'int'):
    """a word may begin at byte i and a word ends there (or the text begins)"""
    return bow(x, i) and len(l.end_lists[i]) > 0


@spec
def words_from(l: 'Lattice', x: 'InputText', s: 'LexiconSet', i: 'int', b: 'int', h: 'seq[tuple[int,int]]', n: 'int'):
    """from number b on, the lattice got the words of the first n hits that end where a word may end, in order"""
    return all(implies(okend(x, h[m][1]), word_node(trig(l.g_words[b + nok(x, h, m)]), s, h[m][0], i, h[m][1])) for m in range(0, n))


@spec(opaque=True)
def place(i: 'int') -> 'bool':
    return True


@spec
def words_at(l: 'Lattice', x: 'InputText', s: 'LexiconSet', i: 'int', h: 'seq[tuple[int,int]]'):
    return (l.g_ws[i + 1] == l.g_ws[i] + (nok(x, h, len(h)) if here(l, x, i) else 0) and l.g_ws[i + 1] <= len(l.g_words) and l.g_ws[i] >= 0
            and implies(here(l, x, i), words_from(l, x, s, i, l.g_ws[i], h, len(h))))


@spec
def oovs_at(l: 'Lattice', x: 'InputText', i: 'int'):
    return (0 <= l.g_os[i] and l.g_os[i] <= l.g_os[i + 1] and l.g_os[i + 1] <= len(l.g_oov) and implies(not here(l, x, i), l.g_os[i + 1] == l.g_os[i]) and all(l.g_oov[k].begin == i for k in range(l.g_os[i], l.g_os[i + 1])))


@spec
def offered_by(l: 'Lattice', x: 'InputText', i: 'int'):
    """something begins at i if a word may begin there"""
    return implies(here(l, x, i), l.g_ws[i] < l.g_ws[i + 1] or l.g_os[i] < l.g_os[i + 1])


@spec
def nasked(t: 'Tokenizer', x: 'InputText', i: 'int') -> 'int':
    """how many providers are asked at i: all of them if the character permits OOV words"""
    return 0 if CategoryType.NOOOVBOW in x.char_categories[chof(x.modified_text, i)] else len(t._oov_provider_plugins)


@spec
def hasw(q: 'seq[tuple[Oov,int,bool,int]]', b: 'int', k: 'int', h: 'bool') -> 'bool':
    """whether there are words after k providers have been asked"""
    return h if k <= 0 else q[b + k - 1][2] or q[b + k - 1][3] > 0


@spec
def asked_from(t: 'Tokenizer', x: 'InputText', i: 'int', b: 'int', n: 'int', h: 'bool'):
    """from number b on, the first n providers were asked about position i in order, each told whether there are words already"""
    return all(x.g_asks[b + k][0] is t._oov_provider_plugins[k] and x.g_asks[b + k][1] == i and x.g_asks[b + k][2] == hasw(x.g_asks, b, k, h) for k in range(0, n))


@spec
def asked_at(t: 'Tokenizer', x: 'InputText', i: 'int', b: 'int', e: 'int', n: 'int', h: 'bool'):
    """the providers, then the last one again if there are no words"""
    return (asked_from(t, x, i, b, n, h) and e == b + n + (0 if hasw(x.g_asks, b, n, h) else 1)
            and implies(not hasw(x.g_asks, b, n, h), x.g_asks[b + n][0] is t.default_oov_provider and x.g_asks[b + n][1] == i and not x.g_asks[b + n][2]))


@spec
def asks_at(t: 'Tokenizer', l: 'Lattice', x: 'InputText', i: 'int', h: 'seq[tuple[int,int]]'):
    return (0 <= x.g_as[i] and x.g_as[i] <= x.g_as[i + 1] and x.g_as[i + 1] <= len(x.g_asks) and implies(not here(l, x, i), x.g_as[i + 1] == x.g_as[i])
            and implies(here(l, x, i), asked_at(t, x, i, x.g_as[i], x.g_as[i + 1], nasked(t, x, i), nok(x, h, len(h)) > 0)))


@spec
def tok_ready(t: 'Tokenizer'):
    """the dictionaries can be looked up, and the providers offer words with ids of the matrix"""
    return (lookable(t._lexicon) and shape(t._lattice) and bos_wf(t._lattice) and all(len(t._lattice.end_lists[e]) == 0 for e in range(t._lattice.size + 1, len(t._lattice.end_lists)))
            and all(t._oov_provider_plugins[k].g_rows <= t._lattice.connect_costs.rows and t._oov_provider_plugins[k].g_cols <= t._lattice.connect_costs.cols for k in range(0, len(t._oov_provider_plugins)))
            and t.default_oov_provider.g_rows <= t._lattice.connect_costs.rows and t.default_oov_provider.g_cols <= t._lattice.connect_costs.cols)


BUILD = 'sudachipy.tokenizer.build_lattice_c'
BASE = ['lat_wf(_l)', 'eos_wf(_l)', '_l.eos_node.best_previous_node is None', '_l.size == _nb', 'logged(_l)', 'bos_wf(_l)', '_l.g_oov == _x.g_given']
LOG = ['all(implies(trig(place(i)), words_at(_l, _x, _lx, i, set_hits(_ls, _b, i))) for i in range(0, %s))', 'all(implies(trig(place(i)), oovs_at(_l, _x, i) and offered_by(_l, _x, i)) for i in range(0, %s))',
       'all(implies(trig(place(i)), asks_at(_t, _l, _x, i, set_hits(_ls, _b, i))) for i in range(0, %s))']
SIZES = ['len(_l.g_ws) == %s + 1', 'len(_l.g_os) == %s + 1', 'len(_x.g_as) == %s + 1']
LAST = ['_l.g_ws[_i] == len(_l.g_words)', '_l.g_os[_i] == len(_l.g_oov)', '_x.g_as[_i] == len(_x.g_asks)']
IN = BASE + ['front(_l, _i + 1)'] + [x % '_i' for x in LOG + SIZES] + ['here(_l, _x, _i)', '_l.g_ws[_i] == _w0', '_l.g_os[_i] == _o0', '_x.g_as[_i] == _a0', '_w0 >= 0', '_o0 >= 0', '_a0 >= 0']
NEW = 'all(_l.g_oov[k].begin == _i for k in range(_o0, len(_l.g_oov)))'
AFTER = IN + ['words_from(_l, _x, _lx, _i, _w0, _h, len(_h))', 'len(_l.g_words) == _w0 + nok(_x, _h, len(_h))', NEW, '_o0 <= len(_l.g_oov)']
OTHER = [x for x in AFTER if x != '_l.g_oov == _x.g_given']
PENDING = ['all(_l.end_lists[e] is not _it for e in range(0, len(_l.end_lists)))', 'all(covers(_s[m], _x, _i) and _s[m].begin == _i and _s[m].end == _i + _s[m].extra_word_info.head_word_length and _s[m].cost >= 0 - 1 - MAXINT and _s[m].cost <= MAXINT and ids_in(_s[m], _l.connect_costs) for m in range(_k, len(_s)))',
           'all(_s[m] is not _s[j] for m in range(0, len(_s)) for j in range(0, m))', 'all(_s[m] is not _l.end_lists[e][j] for m in range(_k, len(_s)) for e in range(0, _nb + 1) for j in range(0, len(_l.end_lists[e])))',
           'all(_s[m] is not _l.eos_node for m in range(_k, len(_s)))', '_x.g_given == _l.g_oov + _s[_k:]']
contract(BUILD, args={'tokenizer': 'Tokenizer', 'input_': 'InputText'}, lets={'_t': 'tokenizer', '_lx': 'tokenizer._lexicon', '_l': 'tokenizer._lattice', '_x': 'input_', '_ls': 'seqof(tokenizer._lexicon.lexicons)', '_b': 'input_.bytes', '_nb': 'nbyte(input_)'},
         requires=['tok_ready(tokenizer)', 'it_wf(input_)', '_nb < MAXINT', 'all(sound(_lx, _l.connect_costs, set_hits(_ls, _b, i)[m][0]) for i in range(0, _nb) for m in range(0, len(set_hits(_ls, _b, i))))'],
         uses=['nok_pos', 'nok_less'],
         modifies=['_l.' + f for f in ('size', 'capacity', 'eos_node', 'g_words', 'g_oov', 'g_ws', 'g_os')] + ['_l.end_lists[]', 'list[LatticeNode]', '_x.g_asks', '_x.g_as', '_x.g_given'],
         hints={'entry': ['_x.g_asks = _x.g_asks[0:0]', '_x.g_given = _x.g_given[0:0]', '_x.g_as = [0]'],
                'loop0.body': ['_i = _k', '_w0 = len(_l.g_words)', '_o0 = len(_l.g_oov)', '_a0 = len(_x.g_asks)', '_h = set_hits(_ls, _b, _i)'],
                'loop0.end': ['assert place(_i)', '_l.g_ws = _l.g_ws + [len(_l.g_words)]', '_l.g_os = _l.g_os + [len(_l.g_oov)]', '_x.g_as = _x.g_as + [len(_x.g_asks)]'],
                'loop2.body': ['_m = _k', '_o1 = len(_l.g_oov)', '_hw = has_words'], 'loop3.end': ['assert _l.end_lists[_s[_k].end] is not _it'], 'loop4.end': ['assert _l.end_lists[_s[_k].end] is not _it'], 'loop4.before': ['_np = nasked(_t, _x, _i)'],
                'loop1.head': ['set_hit(_ls, _b, _i, _k)'], 'loop1.body': ['assert nok(_x, _h, _k + 1) == nok(_x, _h, _k) + (1 if okend(_x, _h[_k][1]) else 0)']},
         inv={0: BASE + ['front(_l, _k)'] + [x % '_k' for x in LOG + SIZES] + ['_l.g_ws[_k] == len(_l.g_words)', '_l.g_os[_k] == len(_l.g_oov)', '_x.g_as[_k] == len(_x.g_asks)'],
              1: IN + ['words_from(_l, _x, _lx, _i, _w0, _h, _k)', 'len(_l.g_words) == _w0 + nok(_x, _h, _k)', 'has_words == (nok(_x, _h, _k) > 0)', 'len(_l.g_oov) == _o0', 'len(_x.g_asks) == _a0'],
              2: AFTER + ['implies(nok(_x, _h, len(_h)) == 0 and has_words, len(_l.g_oov) > _o0)', 'implies(nok(_x, _h, len(_h)) > 0, has_words)', 'implies(not has_words, len(_l.g_oov) == _o0)', 'len(_x.g_asks) == _a0 + _k', 'asked_from(_t, _x, _i, _a0, _k, nok(_x, _h, len(_h)) > 0)', 'has_words == hasw(_x.g_asks, _a0, _k, nok(_x, _h, len(_h)) > 0)'],
              3: OTHER + PENDING + ['len(_x.g_asks) == _a0 + _m + 1', 'asked_from(_t, _x, _i, _a0, _m + 1, nok(_x, _h, len(_h)) > 0)', '_x.g_asks[_a0 + _m][3] == len(_s)', '_x.g_asks[_a0 + _m][2] == _hw', 'has_words == (_hw or _k > 0)', 'len(_l.g_oov) == _o1 + _k'],
              4: OTHER + PENDING + ['len(_x.g_asks) == _a0 + _np + 1', 'asked_from(_t, _x, _i, _a0, _np, nok(_x, _h, len(_h)) > 0)', 'not hasw(_x.g_asks, _a0, _np, nok(_x, _h, len(_h)) > 0)', '_x.g_asks[_a0 + _np][0] is _t.default_oov_provider',
                                    '_x.g_asks[_a0 + _np][1] == _i', 'not _x.g_asks[_a0 + _np][2]', '_x.g_asks[_a0 + _np][3] == len(_s)', 'has_words == (_k > 0)', 'len(_l.g_oov) == _o0 + _k', 'nok(_x, _h, len(_h)) == 0']},
         exc_ensures=[x.replace('_i', '(len(_l.g_ws) - 1)') for x in ('here(_l, _x, _i)', 'len(_l.g_words) == _l.g_ws[_i]', 'len(_l.g_oov) == _l.g_os[_i]', 'nok(_x, set_hits(_ls, _b, _i), len(set_hits(_ls, _b, _i))) == 0', 'len(_x.g_as) == len(_l.g_ws)',
                                                                       'asked_at(_t, _x, _i, _x.g_as[_i], len(_x.g_asks), nasked(_t, _x, _i), False)', '_x.g_asks[len(_x.g_asks) - 1][3] == 0')],
         raises={'RuntimeError': None},
         ensures=['lat_wf(_l)', 'eos_wf(_l)', 'eos_best(_l)', 'logged(_l)', '_l.size == _nb', '_l.g_oov == _x.g_given'] + [x % '_nb' for x in LOG + SIZES])
prop('C08', ['found_ends', 'lex_hit', 'tag_hit', 'user_hit', 'set_hit', 'nok_pos', 'nok_less', BUILD, LT + 'insert', LT + 'resize', LT + 'has_previous_node', OP + 'get_oov'])
