from worldh import *


def attrs(m):
    return {'begin': m.begin(), 'end': m.end(), 'surface': m.surface(), 'str': str(m), 'pos': list(m.part_of_speech()), 'posid': m.part_of_speech_id(), 'dic': m.dictionary_form(),
            'norm': m.normalized_form(), 'read': m.reading_form(), 'oov': m.is_oov(), 'wid': m.word_id(), 'did': m.dictionary_id(), 'syn': list(m.synonym_group_ids())}


class Harness(WorldHarness):
    rule = 'every morpheme of random texts in random worlds, read by every index and by iteration, compared with its path node and its source row; non-trivial: every distinct text'

    def check(self, W, w, text):
        for mode in (M.C, M.A, M.B):
            ms = tok(W, text, mode)
            if ms is None:
                return
            r = self.one(W, w, ms, text)
            if r:
                return r
            if mode is M.C:
                for i in range(len(ms)):
                    for md in (M.A, M.B):
                        s = ms[i].split(md)
                        if not isinstance(s, list):
                            r = self.one(W, w, s, text)
                            if r:
                                return 'split of morpheme %d: %s' % (i, r)

    def one(self, W, w, ms, text):
        n = len(ms)
        if ms.size() != n or len(ms.path) != n:
            return 'size'
        it = [attrs(m) for m in ms]
        if [attrs(m) for m in list(ms)] != it:
            return 'morphemes kept from the iteration describe other words'
        if len(it) != n:
            return 'iteration yields %d morphemes, length %d' % (len(it), n)
        if str(ms) != ''.join(a['surface'] for a in it):
            return 'str'
        for i in list(range(n)) + list(range(-n, 0)):
            if attrs(ms[i]) != it[i]:
                return 'index %d of %d: %r, iteration gives %r' % (i, n, attrs(ms[i]), it[i])
        for i in (n, -n - 1, n + 5, -n - 7, 10 ** 9, -10 ** 9):
            try:
                ms[i]
            except IndexError:
                continue
            return 'index %d of %d is no error' % (i, n)
        inp = ms.input_text
        for i, a in enumerate(it):
            nd = ms.path[i]
            if (a['begin'], a['end']) != (inp.get_original_index(nd.get_begin()), inp.get_original_index(nd.get_end())):
                return 'offsets of morpheme %d' % i
            if a['surface'] != text[a['begin']:a['end']] or a['str'] != a['surface'] or ms.get_surface(i) != a['surface']:
                return 'surface of morpheme %d' % i
            if a['pos'] != list(W.dict.grammar.get_part_of_speech_string(a['posid'])):
                return 'part of speech of morpheme %d' % i
            wi = nd.get_word_info()
            if (a['norm'], a['read'], a['dic'], a['posid'], a['syn']) != (wi.normalized_form, wi.reading_form, wi.dictionary_form, wi.pos_id, list(wi.synonym_group_ids)):
                return 'word info of morpheme %d' % i
            if a['oov'] != nd.is_oov() or ms.is_oov(i) != a['oov']:
                return 'OOV flag of morpheme %d' % i
            nb = inp.get_substring(nd.get_begin(), nd.get_end())
            if a['oov']:
                if a['did'] != -1:
                    return 'OOV morpheme %d with dictionary %d' % (i, a['did'])
                fm = wi.surface if any(p['class'].endswith('JoinKatakanaOovPlugin') for p in w['path']) else nb   # joined words carry the surfaces of the words
                if (a['norm'], a['dic'], wi.surface) != (fm, fm, fm):
                    return 'forms of OOV morpheme %d: %r' % (i, a)
            elif a['did'] == -1:
                if wi.surface != nb and not any(p['class'].endswith('JoinNumericPlugin') or p['class'].endswith('JoinKatakanaOovPlugin') for p in w['path']):
                    return 'morpheme %d has no dictionary' % i
            else:
                d, row_ = entry_of(w, a['wid'])
                if d != a['did']:
                    return 'dictionary number %d of word %x' % (a['did'], a['wid'])
                e = ref_wordinfo(w, a['wid'])
                numj = any(p['class'].endswith('JoinNumericPlugin') for p in w['path'])
                for k, v in (('pos', e['pos']), ('norm', e['normalized_form']), ('read', e['reading_form']), ('dic', e['dictionary_form']), ('syn', e['syn'])):
                    if a[k] != v and not (k == 'norm' and numj):
                        return '%s of morpheme %d is %r, entry has %r' % (k, i, a[k], v)
                if row_[0] != nb:
                    return 'headword of morpheme %d is %r, it covers %r' % (i, row_[0], nb)
