from worldh import *
import refnum
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
from sudachipy.plugin.path_rewrite import JoinNumericPlugin, JoinKatakanaOovPlugin
from p_c03 import CC, G
from sudachipy.lattice import Lattice
from sudachipy.latticenode import LatticeNode
from sudachipy.dictionarylib.wordinfo import WordInfo

FIELDS = ['surface', 'head_word_length', 'pos_id', 'normalized_form', 'dictionary_form', 'dictionary_form_word_id', 'reading_form', 'a_unit_split', 'b_unit_split', 'word_structure', 'synonym_group_ids']


def snap(n):
    wi = n.get_word_info()
    return (n, n.get_begin(), n.get_end(), n.is_oov(), n.get_left_id(), n.get_right_id(), n.get_path_cost(), {f: getattr(wi, f) if not isinstance(getattr(wi, f), list) else list(getattr(wi, f)) for f in FIELDS})


def same(a, b):
    return a[0] is b[0] and a[1:] == b[1:]


class Gram:
    def __init__(self, pos):
        self.pos = pos

    def get_part_of_speech_id(self, p):
        return self.pos.index(p) if p in self.pos else -1


class FakeLattice:
    """nodes with a span, in order; the cheapest first one is the minimum"""

    def __init__(self, extra):
        self.extra = extra

    def get_minimum_node(self, b, e):
        ns = [n for n in self.extra if n.get_begin() == b and n.get_end() == e]
        return min(ns, key=lambda n: n.get_path_cost()) if ns else None

    def create_node(self):
        return LatticeNode()


class Harness(WorldHarness):
    rule = 'random paths (numerals, separators, katakana, others; words with foreign normalized forms, parts of speech and OOV flags) and random dictionaries with texts; non-trivial: every case'
    limit = 10
    texts = 4

    def gen(self, rng, n):
        if rng.random() < .1:
            c = WorldHarness.gen(self, rng, n)
            if not c['world']['path']:
                c['world'] = self._w = dict(self._w, path=[{'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin', 'enableNormalize': True},
                                                           {'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'oovPOS': OOVPOS, 'minLength': 3}])
            return c
        kind = rng.choice(['num', 'kata'])
        cats = {c: ['NUMERIC'] for c in '0123'}
        cats.update({c: ['KANJINUMERIC', 'KANJI'] for c in '一千万'})
        cats.update({'ア': ['KATAKANA'], 'イ': ['KATAKANA', 'NOOOVBOW'], 'ー': ['KATAKANA', 'HIRAGANA'], 'あ': ['HIRAGANA'], 'x': ['ALPHA']})
        if rng.random() < .1:
            cats[rng.choice(',.')] = ['NUMERIC']
        al = '0123一千万,.,.1x' if kind == 'num' else 'アアイーあx'
        words = []
        for _ in range(rng.randint(1, 9)):
            w = rng.choice(al) if rng.random() < .85 else ''.join(rng.choice(al) for _ in range(2))
            nf = w if rng.random() < .9 else rng.choice(['1', '2', 'x', ',', '.', '1,', '十'])
            words.append([w, nf, 0 if rng.random() < .8 else 1, int(rng.random() < .4)])
        ex = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            i = rng.randrange(len(words))
            j = rng.randint(i + 1, len(words))
            ex.append([i, j, rng.randint(0, 5)])
        return {'kind': kind, 'cats': cats, 'words': words, 'extra': ex, 'norm': rng.random() < .8, 'min': rng.choice([1, 2, 3, 9])}

    def key(self, c):
        return json.dumps(c.get('words') or c['texts'])

    def shrinks(self, c):
        if 'words' not in c:
            yield from WorldHarness.shrinks(self, c)
            return
        for i in range(len(c['words'])):
            if len(c['words']) > 1:
                yield dict(c, words=c['words'][:i] + c['words'][i + 1:], extra=[])
        if c['extra']:
            yield dict(c, extra=[])

    def run(self, c):
        if 'world' in c:
            return WorldHarness.run(self, c)
        text = ''.join(w[0] for w in c['words'])
        b = UTF8InputTextBuilder(text, G(c['cats']))
        inp = b.build()
        rt = RefText(text, None, lambda cp: set(c['cats'].get(chr(cp), ['DEFAULT'])))
        path, at = [], 0
        starts = []
        for (w, nf, pos, oov) in c['words']:
            n = LatticeNode()
            e = at + len(w.encode('utf-8'))
            n.set_range(at, e)
            n.set_word_info(WordInfo(w, e - at, pos, nf, -1, 'd' + w, 'r' + w, [1], [2], [3], [4]))
            if oov:
                n.set_oov()
            starts.append(at)
            path.append(n)
            at = e
        starts.append(at)
        extra = []
        for (i, j, cost) in c['extra']:
            n = LatticeNode()
            n.set_range(starts[i], starts[j])
            n.set_parameter(0, 0, cost)
            n.set_word_info(WordInfo('X', 1, 1, 'X', -1, 'X', 'X', [], [], [], []))
            extra.append(n)
        old = [snap(n) for n in path]
        lat = FakeLattice(extra)
        pos = [NUMPOS, OOVPOS]
        if c['kind'] == 'num':
            p = JoinNumericPlugin({'enableNormalize': c['norm']})
        else:
            p = JoinKatakanaOovPlugin({'oovPOS': OOVPOS, 'minLength': c['min']})
        p.set_up(Gram(pos))
        p.rewrite(inp, path, lat)
        return judge(c['kind'], old, path, rt, lat, 0, 1, c['norm'])

    def check(self, W, w, text):
        t = W.dict.create()
        b = UTF8InputTextBuilder(text, W.dict.grammar)
        for p in W.dict.input_text_plugins:
            p.rewrite(b)
        inp = b.build()
        rt = rt_of(w, text)
        t._build_lattice(inp)
        try:
            path = t._lattice.get_best_path()
        except AttributeError:
            t._lattice.clear()
            return None
        for pl in t._path_rewrite_plugins:
            old = [snap(n) for n in path]
            pl.rewrite(inp, path, t._lattice)
            g = W.dict.grammar
            kind = 'num' if 'Numeric' in type(pl).__name__ else 'kata'
            nm = [x.get('enableNormalize') for x in w['path'] if 'Numeric' in x['class']]
            class L:
                @staticmethod
                def get_minimum_node(b, e):
                    ns = [n for n in t._lattice.get_nodes_with_end(e) if n.get_begin() == b]
                    return min(ns, key=lambda n: n.get_path_cost()) if ns else None
            r = judge(kind, old, path, rt, L, g.get_part_of_speech_id(NUMPOS), g.get_part_of_speech_id(OOVPOS), nm[0] if nm else True)
            if r:
                return r
        t._lattice.clear()


def cats_of(rt, b, e):
    cs = rt.cats[rt.ch[b]:rt.ch[e] if e < len(rt.b) else len(rt.t)]
    return set.intersection(*cs) if cs else set()


def judge(kind, old, path, rt, lat, numpos, oovpos, norm):
    i = 0
    for n in path:
        if i >= len(old):
            return 'the path has more words than before'
        if n is old[i][0]:
            if not same(old[i], snap(n)):
                return 'a word that was not joined changed: %r to %r' % (old[i][1:], snap(n)[1:])
            i += 1
            continue
        j = i
        if n.get_begin() != old[i][1]:
            return 'a joined word begins at %d, not at %d' % (n.get_begin(), old[i][1])
        while j < len(old) and old[j][2] < n.get_end():
            j += 1
        if j >= len(old) or old[j][2] != n.get_end():
            return 'a joined word ends at %d, inside a word' % n.get_end()
        st = old[i:j + 1]
        s = snap(n)[7]
        cat = ''.join
        sur = cat(x[7]['surface'] for x in st)
        nf = cat(x[7]['normalized_form'] for x in st)
        if kind == 'num':
            for k, x in enumerate(st):
                isnum = {'NUMERIC', 'KANJINUMERIC'} & cats_of(rt, x[1], x[2])
                if not isnum and (x[7]['normalized_form'] not in ('.', ',') or k in (0, len(st) - 1)):
                    return 'the joined word %r contains %r, which is neither numeric nor a separator inside a number' % (sur, x[7]['surface'])
            if st[0][7]['pos_id'] != numpos:
                return 'joined words that do not begin with a numeral part of speech'
            v = refnum.value(nf)
            if v is None:
                return 'the joined word %r is not a numeral (%s)' % (sur, nf)
            if norm and not refnum.plain(s['normalized_form'], v):
                return 'the joined word %r has the normalized form %r, its value is %s' % (nf, s['normalized_form'], v)
            if not norm and (s['normalized_form'] != nf or len(st) < 2):
                return 'the joined word %r has the normalized form %r' % (nf, s['normalized_form'])
            e = {'surface': sur, 'head_word_length': sum(x[7]['head_word_length'] for x in st), 'pos_id': st[0][7]['pos_id'], 'dictionary_form': cat(x[7]['dictionary_form'] for x in st),
                 'reading_form': cat(x[7]['reading_form'] for x in st), 'dictionary_form_word_id': -1, 'a_unit_split': [], 'b_unit_split': [], 'word_structure': [], 'synonym_group_ids': []}
            if n.is_oov():
                return 'a joined number is marked OOV'
        else:
            if len(st) < 2:
                return 'a single word was replaced'
            for x in st:
                if 'KATAKANA' not in cats_of(rt, x[1], x[2]):
                    return 'the joined word %r contains %r, which is not katakana' % (sur, x[7]['surface'])
            if 'NOOOVBOW' in rt.cats[rt.ch[st[0][1]]]:
                return 'the joined word %r begins with a character that may not begin an OOV word' % sur
            mn = lat.get_minimum_node(n.get_begin(), n.get_end())
            if mn is not None:
                if n is not mn and n.get_path_cost() != mn.get_path_cost():
                    return 'the lattice has a word for the span, which was not taken'
                i = j + 1
                continue
            e = {'surface': sur, 'normalized_form': sur, 'dictionary_form': sur, 'head_word_length': sum(x[7]['head_word_length'] for x in st), 'pos_id': oovpos, 'reading_form': '',
                 'dictionary_form_word_id': -1, 'a_unit_split': [], 'b_unit_split': [], 'word_structure': [], 'synonym_group_ids': []}
            if not n.is_oov():
                return 'a joined OOV word is not marked OOV'
        for k in e:
            if s[k] != e[k]:
                return 'the joined word %r has %s %r, expected %r' % (sur, k, s[k], e[k])
        if n.get_dictionary_id() != -1:
            return 'a joined word has a dictionary number'
        i = j + 1
    if i != len(old):
        return 'words at the end of the path are gone'
