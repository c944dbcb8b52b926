from worldh import *


class Harness(WorldHarness):
    rule = 'random dictionaries with units and texts; modes A and B are compared with the units of the source rows of the mode C words, and with the on demand split; non-trivial: every case'
    texts = 6

    def check(self, W, w, text):
        t = W.dict.create()
        c = tok(W, text, M.C, t)
        if c is None:
            return None
        for mn in 'AB':
            exp = []
            for k, m in enumerate(c):
                n = c.path[k]
                gid = n.get_word_id()
                us = []
                if m.dictionary_id() >= 0:
                    d, r = entry_of(w, gid)
                    us = ref_units(w, d, r[15] if mn == 'A' else r[16])
                if len(us) < 2:
                    exp.append((n.get_begin(), n.get_end(), m.dictionary_id(), gid if m.dictionary_id() >= 0 else None, m.surface(), m.normalized_form(), list(m.part_of_speech())))
                else:
                    at = n.get_begin()
                    for u in us:
                        e = ref_wordinfo(w, u)
                        en = at + e['head_word_length']
                        inp = c.input_text
                        exp.append((at, en, u >> 28, u, text[inp.get_original_index(at):inp.get_original_index(en)], e['normalized_form'], e['pos']))
                        at = en
            for how in ('mode', 'default mode', 'split'):
                if how == 'mode':
                    ms = list(t.tokenize(text, MODES[mn]))
                elif how == 'default mode':
                    ms = list(W.dict.create(mode=MODES[mn]).tokenize(text))
                else:
                    ms = [x for m in c for x in m.split(MODES[mn])]
                got = []
                for m in ms:
                    n = m.list.path[m.index]
                    got.append((n.get_begin(), n.get_end(), m.dictionary_id(), m.word_id() if m.dictionary_id() >= 0 else None, m.surface(), m.normalized_form(), list(m.part_of_speech())))
                if got != exp:
                    return 'mode %s (%s): %r, expected %r' % (mn, how, got, exp)
        for k, m in enumerate(c):
            s = m.split(M.C)
            if len(s) != 1 or s[0].index != k or s[0].surface() != m.surface():
                return 'splitting in mode C changes the morpheme'
