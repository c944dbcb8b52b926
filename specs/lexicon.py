"""Word parameters, word id tables, lexicons and sets of lexicons (C16, C18, C24)."""
from pyvc.api import *
from specs.binary import *
from specs.entries import *
from specs.classes import *

D = 'sudachipy.dictionarylib.'
cls('Params', D + 'wordparameterlist.WordParameterList', {'size': 'int', '_array_view': 'View'})
cls('IdTable', D + 'wordidtable.WordIdTable', {'size': 'int', 'offset': 'int', '_bytes_view': 'View'})


@spec
def prm_wf(x: 'Params'):
    return (x._array_view.item == 2 and x._array_view.cols == 0 - 1 and x.size >= 0 and x._array_view.n == 6 * x.size and x._array_view.base >= 0
            and x._array_view.base + x._array_view.n <= len(x._array_view.src.data))


@spec(opaque=True)
def prm(d: 'bytes', base: 'int', w: 'int', k: 'int') -> 'int':
    """k-th number (left id, right id, cost) of word w"""
    return frombytes(d[base + 2 * (3 * w + k):base + 2 * (3 * w + k) + 2], True)


P = D + 'wordparameterlist.WordParameterList.'
contract(P + '__init__', args={'bytes_': 'Mmap', 'offset': 'int'}, requires=['0 <= bytes_.pos', 'bytes_.pos <= len(bytes_.data)', '0 <= offset', 'offset + 4 <= len(bytes_.data)',
                                                                            'offset + 4 + 6 * frombytes(bytes_.data[offset:offset + 4], False) <= len(bytes_.data)'],
         restores=['bytes_.pos'], modifies=['self.size', 'self._array_view'],
         ensures=['prm_wf(self)', 'self.size == frombytes(bytes_.data[offset:offset + 4], False)', 'self._array_view.src is bytes_', 'self._array_view.base == offset + 4', 'fresh(self._array_view)'])
contract(P + 'storage_size', returns='int', ensures=['result == 4 + 6 * self.size'])
contract(P + 'get_size', returns='int', ensures=['result == self.size'])
for k, nm in enumerate(('get_left_id', 'get_right_id', 'get_cost')):
    contract(P + nm, args={'word_id': 'int'}, returns='int', requires=['prm_wf(self)', '0 <= word_id', 'word_id < self.size'],
             ensures=['result == prm(self._array_view.src.data, self._array_view.base, word_id, %d)' % k])
contract(P + 'set_cost', args={'word_id': 'int', 'cost': 'int'}, requires=['prm_wf(self)', '0 <= word_id', 'word_id < self.size'], modifies=['self._array_view.src.data'], uses=PATCH,
         raises={'ValueError': 'cost < -32768 or cost > 32767'},
         ensures=['len(self._array_view.src.data) == old(len(self._array_view.src.data))',
                  'prm(self._array_view.src.data, self._array_view.base, word_id, 2) == cost',
                  'all(implies(w != word_id or k != 2, prm(self._array_view.src.data, self._array_view.base, w, k) == prm(old(self._array_view.src.data), self._array_view.base, w, k)) for w in range(0, self.size) for k in range(0, 3))',
                  'all(implies(p < self._array_view.base + 6 * word_id + 4 or p >= self._array_view.base + 6 * word_id + 6, self._array_view.src.data[p] == old(self._array_view.src.data)[p]) for p in range(0, len(self._array_view.src.data)))'])

T = D + 'wordidtable.WordIdTable.'


@spec
def tab_wf(x: 'IdTable'):
    return (x._bytes_view.item == 1 and x._bytes_view.cols == 0 - 1 and x._bytes_view.base >= 0 and x._bytes_view.n >= 0 and x._bytes_view.base + x._bytes_view.n <= len(x._bytes_view.src.data))


contract(T + '__init__', args={'bytes_': 'Mmap', 'offset': 'int'}, requires=['0 <= offset', 'offset + 4 <= len(bytes_.data)', 'offset + 4 + frombytes(bytes_.data[offset:offset + 4], False) <= len(bytes_.data)'],
         modifies=['self.size', 'self.offset', 'self._bytes_view', 'bytes_.pos'],
         ensures=['tab_wf(self)', 'self.size == frombytes(bytes_.data[offset:offset + 4], False)', 'self._bytes_view.src is bytes_', 'self._bytes_view.base == offset + 4', 'self._bytes_view.n == self.size', '0 <= bytes_.pos', 'bytes_.pos <= len(bytes_.data)'])
contract(T + 'storage_size', returns='int', ensures=['result == 4 + self.size'])
contract(T + 'get', args={'index': 'int'}, returns='seq[int]',
         requires=['tab_wf(self)', '0 <= index', 'index < self._bytes_view.n', 'isbyte(self._bytes_view.src.data[self._bytes_view.base + index])',
                   'index + 1 + 4 * self._bytes_view.src.data[self._bytes_view.base + index] <= self._bytes_view.n'],
         ensures=['len(result) == self._bytes_view.src.data[self._bytes_view.base + index]',
                  'all(result[i] == idat(self._bytes_view.src.data, self._bytes_view.base + index, i) for i in range(0, len(result)))'])


@spec(opaque=True)
def idat(d: 'bytes', p: 'int', i: 'int') -> 'int':
    """i-th word id of the group at p"""
    return frombytes(d[p + 1 + 4 * i:p + 5 + 4 * i], False)

# ---- the trie (dartsclone): assumed contract
extern('trieval', ['bytes', 'bytes'], 'int', note='value the double array (first argument: its cells) stores for a key, -1 if it is no key')
model('dartsclone.DoubleArray', 'ghost.io_.DoubleArray')
cls('Trie', 'ghost.io_.DoubleArray', {'cells': 'bytes', 'n': 'int'})
PAIRS = 'list[tuple[int,int]]'


@spec(rec=True)
def cps(a: 'bytes', key: 'bytes', n: 'int') -> 'seq[tuple[int,int]]':
    """(value, length) of every indexed prefix of key of length 1..n, shortest first"""
    return [] if n <= 0 else cps(a, key, n - 1) + ([(trieval(a, key[:n]), n)] if trieval(a, key[:n]) >= 0 else [])


extern('isval', ['bytes', 'int'], 'bool', note='the double array stores this value for some key')
extern('triemax', ['bytes'], 'int', note='the largest value the double array stores')
axiom('isval_of', [('a', 'bytes'), ('k', 'bytes')], 'implies(trieval(a, k) >= 0, isval(a, trieval(a, k)) and trieval(a, k) <= triemax(a))', pats=['trieval(a, k)'],
      note='definition of the values stored in a double array')
extern('trie_search', ['bytes', 'bytes'], 'seq[tuple[int,int]]', note='DoubleArray.common_prefix_search')
axiom('trie_search', [('a', 'bytes'), ('k', 'bytes')], 'trie_search(a, k) == cps(a, k, len(k))', pats=['trie_search(a, k)'],
      note='DoubleArray.common_prefix_search(key) lists value and length of every indexed prefix of the key, shortest first (exercised by the bounded cross-check)')
cls('Lex', D + 'doublearraylexicon.DoubleArrayLexicon', {'trie': 'Trie', 'word_id_table': 'IdTable', 'word_params': 'Params', 'word_infos': 'WordInfoList'})


@lemma(requires=['0 <= i', 'i < len(cps(a, key, n))', 'n <= len(key)'],
       ensures=['cps(a, key, n)[i][0] >= 0', 'cps(a, key, n)[i][0] == trieval(a, key[:cps(a, key, n)[i][1]])', '1 <= cps(a, key, n)[i][1]', 'cps(a, key, n)[i][1] <= n'], dec='n', pats=['cps(a, key, n)[i]'])
def cps_at(a: 'bytes', key: 'bytes', n: 'int', i: 'int'):
    if n > 0:
        if i < len(cps(a, key, n - 1)):
            cps_at(a, key, n - 1, i)


@spec(rec=True)
def ids(d: 'bytes', p: 'int', e: 'int', k: 'int') -> 'seq[tuple[int,int]]':
    """first k word ids of the group at p, each with end e"""
    return [] if k <= 0 else ids(d, p, e, k - 1) + [(idat(d, p, k - 1), e)]


@spec(rec=True)
def found(d: 'bytes', p: 'int', hits: 'seq[tuple[int,int]]', o: 'int', k: 'int') -> 'seq[tuple[int,int]]':
    """the word ids of the first k hits, in order"""
    return [] if k <= 0 else found(d, p, hits, o, k - 1) + ids(d, p + hits[k - 1][0], hits[k - 1][1] + o, d[p + hits[k - 1][0]])


@spec
def idx_wf(x: 'Lex'):
    """every value the trie stores is the position of a complete group of the word id table"""
    return (tab_wf(x.word_id_table) and triemax(x.trie.cells) < x.word_id_table._bytes_view.n
            and all(implies(isval(x.trie.cells, v), grp_ok(x.word_id_table._bytes_view.src.data, x.word_id_table._bytes_view.base, x.word_id_table._bytes_view.n, v))
                    for v in range(0, x.word_id_table._bytes_view.n)))


@spec
def grp_ok(d: 'bytes', b: 'int', n: 'int', v: 'int'):
    return isbyte(d[b + v]) and v + 1 + 4 * d[b + v] <= n and all(0 <= idat(d, b + v, i) and idat(d, b + v, i) <= 0x0FFFFFFF for i in range(0, d[b + v]))


L = D + 'doublearraylexicon.DoubleArrayLexicon.'
@spec
def hits_ok(d: 'bytes', p: 'int', n: 'int', h: 'seq[tuple[int,int]]', k: 'int'):
    return all(0 <= h[j][0] and h[j][0] < n and grp_ok(d, p, n, h[j][0]) for j in range(0, k))


@lemma(requires=['0 <= i', 'i < k'], ensures=['len(ids(d, p, e, k)) == k', 'ids(d, p, e, k)[i] == (idat(d, p, i), e)'], dec='k', pats=['ids(d, p, e, k)[i]'], uses=['ids_len'])
def ids_at(d: 'bytes', p: 'int', e: 'int', k: 'int', i: 'int'):
    if i < k - 1:
        ids_at(d, p, e, k - 1, i)


@lemma(requires=['0 <= k'], ensures=['len(ids(d, p, e, k)) == k'], dec='k', pats=['ids(d, p, e, k)'])
def ids_len(d: 'bytes', p: 'int', e: 'int', k: 'int'):
    if k > 0:
        ids_len(d, p, e, k - 1)


@lemma(requires=['hits_ok(d, p, n, h, k)', '0 <= i', 'i < len(found(d, p, h, o, k))', '0 <= k'],
       ensures=['0 <= found(d, p, h, o, k)[i][0]', 'found(d, p, h, o, k)[i][0] <= 0x0FFFFFFF'], dec='k', uses=['ids_at', 'ids_len'])
def found_small(d: 'bytes', p: 'int', n: 'int', h: 'seq[tuple[int,int]]', o: 'int', k: 'int', i: 'int'):
    if k > 0:
        assert grp_ok(d, p, n, h[k - 1][0])
        if i < len(found(d, p, h, o, k - 1)):
            found_small(d, p, n, h, o, k - 1, i)
        else:
            assert found(d, p, h, o, k)[i] == ids(d, p + h[k - 1][0], h[k - 1][1] + o, d[p + h[k - 1][0]])[i - len(found(d, p, h, o, k - 1))]


LEXR = ['Lex.trie', 'Trie.cells', 'Lex.word_id_table', 'IdTable._bytes_view', 'View.src', 'View.base', 'Mmap.data']


@spec(reads=LEXR, opaque=True)
def lex_hits(l: 'Lex', text: 'bytes', o: 'int') -> 'seq[tuple[int,int]]':
    """(word id, end) of every entry of the lexicon whose headword starts at byte o of the text"""
    return found(l.word_id_table._bytes_view.src.data, l.word_id_table._bytes_view.base, cps(l.trie.cells, text[o:], len(text) - o), o, len(cps(l.trie.cells, text[o:], len(text) - o)))


@lemma(requires=['idx_wf(l)', '0 <= o', 'o <= len(text)', '0 <= i', 'i < len(lex_hits(l, text, o))'],
       ensures=['0 <= lex_hits(l, text, o)[i][0]', 'lex_hits(l, text, o)[i][0] <= 0x0FFFFFFF'], uses=['cps_at'], pats=['lex_hits(l, text, o)[i]'])
def hits_small(l: 'Lex', text: 'bytes', o: 'int', i: 'int'):
    assert hits_ok(l.word_id_table._bytes_view.src.data, l.word_id_table._bytes_view.base, l.word_id_table._bytes_view.n, cps(l.trie.cells, text[o:], len(text) - o), len(cps(l.trie.cells, text[o:], len(text) - o)))
    found_small(l.word_id_table._bytes_view.src.data, l.word_id_table._bytes_view.base, l.word_id_table._bytes_view.n, cps(l.trie.cells, text[o:], len(text) - o), o, len(cps(l.trie.cells, text[o:], len(text) - o)), i)


contract(L + 'lookup', args={'text': 'bytes', 'offset': 'int'}, returns=PAIRS, requires=['idx_wf(self)', '0 <= offset', 'offset <= len(text)'],
         uses=['cps_at', 'hits_small'], lets={'_d': 'self.word_id_table._bytes_view.src.data', '_p': 'self.word_id_table._bytes_view.base', '_h': 'cps(self.trie.cells, text[offset:], len(text) - offset)'},
         ensures=['fresh(result)', 'result == lex_hits(self, text, offset)', 'all(0 <= result[i][0] and result[i][0] <= 0x0FFFFFFF for i in range(0, len(result)))'],
         inv={0: ['_yields == found(_d, _p, _h, offset, _k)', 'fresh(_yields)'],
              1: ['_yields == _y0 + ids(_d, _p + index, length, _k)', 'fresh(_yields)']}, hints={'loop1.before': ['_y0 = seqof(_yields)']}, locals={'_yields': PAIRS})


for k, nm in enumerate(('get_left_id', 'get_right_id', 'get_cost')):
    contract(L + nm, args={'word_id': 'int'}, returns='int', requires=['prm_wf(self.word_params)', '0 <= word_id', 'word_id < self.word_params.size'],
             ensures=['result == prm(self.word_params._array_view.src.data, self.word_params._array_view.base, word_id, %d)' % k])
contract(L + 'get_word_info', args={'word_id': 'int'}, returns='WordInfo', requires=['word_ok(self.word_infos, word_id)'], restores=['self.word_infos.bytes.pos'],
         ensures=INFO + ['entry_is(result, self.word_infos.bytes.data, self.word_infos.offset, word_id, self.word_infos.has_synonym_gid)'])
contract(L + 'size', returns='int', ensures=['result == self.word_params.size'])
contract(L + 'get_dictionary_id', args={'word_id': 'int'}, returns='int', ensures=['result == 0'])

# ---- sets of lexicons
S = D + 'lexiconset.LexiconSet.'
cls('LexiconSet', D + 'lexiconset.LexiconSet', {'lexicons': 'list[Lex]', 'pos_offsets': 'list[int]'})
R.cached.add(S + 'get_word_info')


@spec
def dic(w: 'int') -> 'int':
    return w // 268435456


@spec
def loc(w: 'int') -> 'int':
    return w % 268435456


@spec
def gid(k: 'int', w: 'int') -> 'int':
    """word w of dictionary k"""
    return k * 268435456 + w


@lemma(requires=['0 <= w', 'w < 268435456'], ensures=['dic(gid(k, w)) == k', 'loc(gid(k, w)) == w', 'gid(dic(v), loc(v)) == v', 'implies(gid(k, w) == gid(j, v) and 0 <= v and v < 268435456, k == j and w == v)'])
def ids_unique(k: 'int', w: 'int', j: 'int', v: 'int'):
    pass


@spec
def set_wf(s: 'LexiconSet'):
    return len(s.lexicons) >= 1 and len(s.lexicons) <= 16 and len(s.pos_offsets) == len(s.lexicons)


@spec
def word_in(s: 'LexiconSet', w: 'int'):
    """w is a word of the set that can be read"""
    return set_wf(s) and 0 <= w and dic(w) < len(s.lexicons) and word_ok(s.lexicons[dic(w)].word_infos, loc(w))


@spec
def unit_of(u: 'int', k: 'int') -> 'int':
    """unit u of an entry of dictionary k: a word of the system dictionary, or of the same user dictionary"""
    return gid(k, loc(u)) if dic(u) > 0 else u


@spec
def pos_of(s: 'LexiconSet', p: 'int', k: 'int') -> 'int':
    return p - s.pos_offsets[1] + s.pos_offsets[k] if k > 0 and p >= s.pos_offsets[1] else p


@spec(rec=True)
def convu(vs: 'seq[int]', k: 'int', n: 'int') -> 'seq[int]':
    """the first n units of an entry of dictionary k"""
    return [] if n <= 0 else convu(vs, k, n - 1) + [unit_of(vs[n - 1], k)]


@lemma(requires=['0 <= n'], ensures=['len(convu(vs, k, n)) == n'], dec='n', pats=['convu(vs, k, n)'])
def convu_len(vs: 'seq[int]', k: 'int', n: 'int'):
    if n > 0:
        convu_len(vs, k, n - 1)


@lemma(requires=['0 <= i', 'i < n'], ensures=['convu(vs, k, n)[i] == unit_of(vs[i], k)'], dec='n', pats=['convu(vs, k, n)[i]'], uses=['convu_len'])
def convu_at(vs: 'seq[int]', k: 'int', n: 'int', i: 'int'):
    if i < n - 1:
        convu_at(vs, k, n - 1, i)


@spec
def units_are(us: 'seq[int]', vs: 'seq[int]', k: 'int'):
    return us == convu(vs, k, len(vs))


@spec
def info_of(wi: 'WordInfo', s: 'LexiconSet', w: 'int'):
    """wi describes word w of the set"""
    return info_in(wi, s, s.lexicons[dic(w)].word_infos, w)


@spec
def info_in(wi: 'WordInfo', s: 'LexiconSet', l: 'WordInfoList', w: 'int'):
    return (entry_core(wi, l.bytes.data, l.offset, loc(w), l.has_synonym_gid) and wi.pos_id == pos_of(s, entry_pos(l.bytes.data, l.offset, loc(w)), dic(w))
            and units_are(seqof(wi.a_unit_split), unit_list(l.bytes.data, l.offset, loc(w), 0), dic(w))
            and units_are(seqof(wi.b_unit_split), unit_list(l.bytes.data, l.offset, loc(w), 1), dic(w))
            and units_are(seqof(wi.word_structure), unit_list(l.bytes.data, l.offset, loc(w), 2), dic(w)))


contract(S + 'get_dictionary_id', args={'word_id': 'int'}, returns='int', ensures=['result == dic(word_id)'], pure=True, spec_result='dic(word_id)')
contract(S + 'get_word_id1', args={'word_id': 'int'}, returns='int', ensures=['result == loc(word_id)'], pure=True, spec_result='loc(word_id)')
contract(S + 'build_word_id', args={'dict_id': 'int', 'word_id': 'int'}, returns='int', requires=['0 <= dict_id', '0 <= word_id'],
         raises={'AttributeError': 'word_id > 0x0FFFFFFF or dict_id > len(self.lexicons)'}, ensures=['result == gid(dict_id, word_id)'])
contract(S + 'convert_split', args={'split': 'list[int]', 'dict_id': 'int'}, returns='list[int]', requires=['0 <= dict_id', 'dict_id <= len(self.lexicons)'], modifies=['split[]'], uses=['convu_at', 'convu_len'],
         ensures=['result is split', 'units_are(seqof(split), old(seqof(split)), dict_id)'],
         inv={0: ['len(split) == old(len(split))', 'all(split[i] == unit_of(old(seqof(split))[i], dict_id) for i in range(0, _k))', 'all(split[i] == old(seqof(split))[i] for i in range(_k, len(split)))']})
contract(S + 'is_full', returns='bool', ensures=['result == (len(self.lexicons) >= 16)'])
contract(S + 'add', args={'lexicon': 'Lex', 'pos_offset': 'int'}, requires=['len(self.lexicons) == len(self.pos_offsets)', 'self.lexicons is not self.pos_offsets'], modifies=['self.lexicons[]', 'self.pos_offsets[]'],
         ensures=['implies(all(self.lexicons[i] is not lexicon for i in range(0, old(len(self.lexicons)))), self.lexicons == old(seqof(self.lexicons)) + [lexicon] and self.pos_offsets == old(seqof(self.pos_offsets)) + [pos_offset])',
                  'implies(any(old(seqof(self.lexicons))[i] is lexicon for i in range(0, old(len(self.lexicons)))), self.lexicons == old(seqof(self.lexicons)) and self.pos_offsets == old(seqof(self.pos_offsets)))'])
contract(S + '__init__', args={'system_lexicon': 'Lex'}, ensures=['len(self.lexicons) == 1', 'self.lexicons[0] is system_lexicon', 'len(self.pos_offsets) == 1', 'self.pos_offsets[0] == 0'])
contract(S + 'get_word_info', args={'word_id': 'int'}, returns='WordInfo', requires=['word_in(self, word_id)'], restores=['self.lexicons[dic(word_id)].word_infos.bytes.pos'],
         ensures=['info_of(result, self, word_id)'])
for k, nm in enumerate(('get_left_id', 'get_right_id', 'get_cost')):
    contract(S + nm, args={'word_id': 'int'}, returns='int',
             requires=['set_wf(self)', '0 <= word_id', 'dic(word_id) < len(self.lexicons)', 'prm_wf(self.lexicons[dic(word_id)].word_params)', 'loc(word_id) < self.lexicons[dic(word_id)].word_params.size'],
             lets={'_a': 'self.lexicons[dic(word_id)].word_params._array_view'}, ensures=['result == prm(_a.src.data, _a.base, loc(word_id), %d)' % k])


@spec(rec=True)
def tagged(h: 'seq[tuple[int,int]]', d: 'int', n: 'int') -> 'seq[tuple[int,int]]':
    """the first n hits as words of dictionary d"""
    return [] if n <= 0 else tagged(h, d, n - 1) + [(gid(d, h[n - 1][0]), h[n - 1][1])]


@spec(rec=True, reads=LEXR)
def user_hits(ls: 'seq[Lex]', text: 'bytes', o: 'int', k: 'int') -> 'seq[tuple[int,int]]':
    """the hits of the first k user dictionaries, in order"""
    return [] if k <= 0 else user_hits(ls, text, o, k - 1) + tagged(lex_hits(ls[k], text, o), k, len(lex_hits(ls[k], text, o)))


@spec(reads=LEXR, opaque=True)
def set_hits(ls: 'seq[Lex]', text: 'bytes', o: 'int') -> 'seq[tuple[int,int]]':
    """the hits of all dictionaries: user dictionaries first, each under its own number"""
    return user_hits(ls, text, o, len(ls) - 1) + tagged(lex_hits(ls[0], text, o), 0, len(lex_hits(ls[0], text, o)))


@lemma(requires=['0 <= n', 'n <= len(h)'], ensures=['len(tagged(h, d, n)) == n'], dec='n', pats=['tagged(h, d, n)'])
def tagged_len(h: 'seq[tuple[int,int]]', d: 'int', n: 'int'):
    if n > 0:
        tagged_len(h, d, n - 1)


@lemma(requires=['0 <= i', 'i < n', 'n <= len(h)'], ensures=['tagged(h, d, n)[i] == (gid(d, h[i][0]), h[i][1])'], dec='n', pats=['tagged(h, d, n)[i]'], uses=['tagged_len'])
def tagged_at(h: 'seq[tuple[int,int]]', d: 'int', n: 'int', i: 'int'):
    if i < n - 1:
        tagged_at(h, d, n - 1, i)


@spec
def lookable(s: 'LexiconSet'):
    return set_wf(s) and all(idx_wf(s.lexicons[j]) for j in range(0, len(s.lexicons)))


contract(S + 'lookup', args={'text': 'bytes', 'offset': 'int'}, returns=PAIRS, requires=['lookable(self)', '0 <= offset', 'offset <= len(text)'], uses=['tagged_at', 'tagged_len'],
         ensures=['fresh(result)', 'result == set_hits(seqof(self.lexicons), text, offset)'])
contract(S + '__lookup', args={'text': 'bytes', 'offset': 'int'}, returns=PAIRS, requires=['lookable(self)', '0 <= offset', 'offset <= len(text)', 'len(self.lexicons) > 1'], uses=['tagged_at', 'tagged_len'],
         lets={'_ls': 'seqof(self.lexicons)'},
         ensures=['fresh(result)', 'result == set_hits(seqof(self.lexicons), text, offset)'],
         inv={0: ['fresh(_yields)', 'implies(_k < len(_ls), _yields == user_hits(_ls, text, offset, _k))', 'implies(_k >= len(_ls), _yields == set_hits(_ls, text, offset))', 'len(indices) == len(_ls)',
                  'all(indices[i] == i + 1 for i in range(0, len(_ls) - 1))', 'indices[len(_ls) - 1] == 0'],
              1: ['fresh(_yields)', '_yields == _y0 + tagged(lex_hits(_ls[dict_id], text, offset), dict_id, _k)']}, hints={'loop1.before': ['_y0 = seqof(_yields)']}, locals={'_yields': PAIRS})

IDTAB = [P + '__init__', P + 'storage_size', P + 'get_size', T + '__init__', T + 'storage_size', T + 'get']
LOOKUP = ['cps_at', 'ids_at', 'ids_len', 'found_small', 'hits_small', 'tagged_len', 'tagged_at', L + 'lookup', S + 'get_dictionary_id', S + 'get_word_id1', S + 'build_word_id', S + 'lookup', S + '__lookup']
prop('C16', IDTAB + LOOKUP)
SETS = [S + x for x in ('__init__', 'add', 'is_full', 'get_dictionary_id', 'get_word_id1', 'build_word_id', 'convert_split', 'get_word_info', 'get_left_id', 'get_right_id', 'get_cost')]
PRM = [P + 'get_left_id', P + 'get_right_id', P + 'get_cost', L + 'get_left_id', L + 'get_right_id', L + 'get_cost', L + 'get_word_info', L + 'size']
prop('C18', READER + ['ids_unique', 'convu_len', 'convu_at', 'hits_small', 'tagged_len', 'tagged_at', S + '__lookup', S + 'lookup'] + SETS + PRM)
