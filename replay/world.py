"""Random dictionaries and configurations, written with the real builder and loaded with the real loader, and the reference
functions (written from the property statements, not from the code) that the harnesses compare the results with."""
import io
import csv
import json
import logging
import os
import random
import shutil
import tempfile
import unicodedata

from common import *

CATS = ['DEFAULT', 'SPACE', 'KANJI', 'SYMBOL', 'NUMERIC', 'ALPHA', 'HIRAGANA', 'KATAKANA', 'KANJINUMERIC', 'GREEK', 'CYRILLIC', 'USER1', 'USER2', 'NOOOVBOW']
NUMPOS = ['名詞', '数詞', '*', '*', '*', '*']
OOVPOS = ['補助記号', '一般', '*', '*', '*', '*']
WALPH = ['a', 'b', 'é', 'α', 'д', 'あ', 'い', 'ア', 'イ', 'ー', '東', '京', '都', '一', '千', '1', '2', '0', '.', ',', '𠮷', '😀']


class Log:
    disabled = True
    def info(self, *a): pass
    debug = warn = warning = error = info


def chardef_lines(ranges):
    return ['0x%04X..0x%04X %s' % (a, b, ' '.join(cs)) if a != b else '0x%04X %s' % (a, ' '.join(cs)) for a, b, cs in ranges]


BASE_CHARDEF = [[0x30, 0x39, ['NUMERIC']], [0x41, 0x5A, ['ALPHA']], [0x61, 0x7A, ['ALPHA']], [0xC0, 0x24F, ['ALPHA']], [0x370, 0x3FF, ['GREEK']],
                [0x400, 0x52F, ['CYRILLIC']], [0x3041, 0x309F, ['HIRAGANA']], [0x30A1, 0x30FF, ['KATAKANA']], [0x30FC, 0x30FC, ['HIRAGANA', 'KATAKANA']],
                [0x4E00, 0x9FFF, ['KANJI']], [0x4E00, 0x4E00, ['KANJINUMERIC']], [0x5343, 0x5343, ['KANJINUMERIC']], [0x20BB7, 0x20BB7, ['KANJI']], [0x20, 0x20, ['SPACE']]]


def rchardef(rng):
    out = [list(x) for x in BASE_CHARDEF if rng.random() < .9]
    for _ in range(rng.randint(0, 3)):
        a = ord(rng.choice(WALPH))
        out.insert(rng.randint(0, len(out)), [a, a + rng.choice([0, 0, 1, 5, 300]), rng.sample(CATS, rng.randint(1, 2))])
    return out


def ref_cats(ranges, cp):
    s = set()
    for a, b, cs in ranges:
        if a <= cp <= b:
            s |= set(cs)
    return s or {'DEFAULT'}


# ---------------------------------------------------------------- text under construction
def ref_apply(text, m, repls):
    """repls: non-overlapping (begin, end, string) in positions of `text`"""
    t, mm, at = '', [], 0
    for b, e, s in repls:
        t += text[at:b] + s
        mm += m[at:b] + [m[b]] + [m[e]] * (len(s) - 1)
        at = e
    return t + text[at:], mm + m[at:]


def ref_psm_repls(text, marks, sym):
    out, i = [], 0
    while i < len(text):
        j = i
        while j < len(text) and text[j] in marks:
            j += 1
        if j - i > 1:
            out.append((i, j, sym))
        i = max(j, i + 1)
    return out


def ref_default_repls(text, keys, ignore):
    out, i = [], 0
    while i < len(text):
        best = None
        for k in keys:
            if text.startswith(k, i) and (best is None or len(k) > len(best)):
                best = k
        if best:
            out.append((i, i + len(best), keys[best]))
            i += len(best)
            continue
        c = text[i].lower()
        r = c if c in ignore else unicodedata.normalize('NFKC', c)
        if r != text[i]:
            out.append((i, i + 1, r))
        i += 1
    return out


_def = {}


def default_lists():
    if not _def:
        from sudachipy import config
        keys, ign = {}, set()
        for ln in open(os.path.join(config.DEFAULT_RESOURCEDIR, 'rewrite.def'), encoding='utf-8'):
            ln = ln.strip()
            if not ln or ln.startswith('#'):
                continue
            c = ln.split()
            if len(c) == 1:
                ign.add(c[0])
            else:
                keys[c[0]] = c[1]
        _def['v'] = (keys, ign)
    return _def['v']


def ref_input(text, plugins):
    m = list(range(len(text) + 1))
    t = text
    for p in plugins:
        if p['class'].endswith('DefaultInputTextPlugin'):
            keys, ign = default_lists()
            t, m = ref_apply(t, m, ref_default_repls(t, keys, ign))
        else:
            t, m = ref_apply(t, m, ref_psm_repls(t, set(p.get('prolongedSoundMarks', [])), p.get('replacementSymbol', 'ー')))
    return t, m


class RefText:
    """positions of the built input text, from its UTF-8 encoding and categories alone"""

    def __init__(self, t, m, cats):
        self.t, self.m = t, m
        self.b = t.encode('utf-8')
        self.start = []                    # first byte of each character, plus the end
        p = 0
        for c in t:
            self.start.append(p)
            p += len(c.encode('utf-8'))
        self.start.append(p)
        self.ch = []                       # character of each byte, plus the end
        for i in range(len(t)):
            self.ch += [i] * (self.start[i + 1] - self.start[i])
        self.ch.append(len(t))
        self.cats = [cats(ord(c)) for c in t]
        self.run_end = [0] * len(t)        # character index where the run of each character ends
        i = 0
        while i < len(t):
            s, j = set(self.cats[i]), i + 1
            while j < len(t) and s & self.cats[j]:
                s &= self.cats[j]
                j += 1
            for k in range(i, j):
                self.run_end[k] = j
            i = j

    def can_bow(self, p):
        i = self.ch[p]
        if p != self.start[i] or i == len(self.t):
            return False
        if i == 0 or not self.cats[i] & {'ALPHA', 'GREEK', 'CYRILLIC'}:
            return True
        return not (self.cats[i] & self.cats[i - 1])

    def cont_len(self, p):
        return self.start[self.run_end[self.ch[p]]] - p

    def next_bow(self, p):
        for q in range(p + 1, len(self.b)):
            if self.can_bow(q):
                return q
        return len(self.b)


def ref_mecab(rt, p, has, cats, rules):
    """cats: name -> (invoke, group, length); rules: list of (name, left, right, cost, posid); returns sorted list of candidate tuples"""
    out = []
    i = rt.ch[p]
    run = rt.start[rt.run_end[i]]
    for c in rt.cats[i]:
        rs = [r for r in rules if r[0] == c]
        if c not in cats or not rs:
            continue
        inv, grp, ln = cats[c]
        if not inv and has:
            continue
        ends = []
        if grp:
            ends.append(run)
        for n in range(1, ln + 1):
            if i + n > len(rt.t):
                break
            e = rt.start[i + n]
            if e < run or (e == run and not grp):
                ends.append(e)
        for e in ends:
            for r in rs:
                out.append((p, e, r[1], r[2], r[3], r[4]))
    return out


# ---------------------------------------------------------------- dictionaries
def row(surface, l, r, c, pos, reading=None, norm=None, dic='*', typ='A', a='*', b='*', s='*', syn='*', written=None):
    return [surface, str(l), str(r), str(c), surface if written is None else written] + list(pos) + \
           [surface if reading is None else reading, surface if norm is None else norm, dic, typ, a, b, s, syn]


def csv_text(rows):
    f = io.StringIO()
    w = csv.writer(f, lineterminator='\n')
    for r in rows:
        w.writerow(r)
    return f.getvalue()


def gen_words(rng, n, pos, ids, base=(), splits=True, prefix='', alph=WALPH, extreme=False):
    """rows; compounds get units that concatenate to their headword.  base: rows that plain ids refer to (system dictionary)"""
    rows = []
    simple = []
    costs = [0, 1, -5, 100, 3000, 32766, -3000] + ([32767, -32767] if extreme else [])
    own = list(base) if not prefix else []
    for _ in range(n):
        p = rng.choice(pos)
        if splits and len(simple) + len(base) >= 2 and rng.random() < .35:
            pool = [('', i, w) for i, w in enumerate(base)] + [(prefix, i, rows[i]) for i in simple]
            us = [rng.choice(pool) for _ in range(rng.randint(2, 3))]
            hw = ''.join(u[2][0] for u in us)
            sp = '/'.join('%s%d' % (u[0], u[1]) for u in us)
            us2 = us
            if len(us) == 3 and rng.random() < .5:
                b = '*'
            else:
                b = sp if rng.random() < .5 else '*'
            a = sp if rng.random() < .8 or b == '*' else '*'
            st = sp if rng.random() < .5 else '*'
            rows.append(row(hw, rng.choice(ids), rng.choice(ids), rng.choice(costs), p, reading=rtext(rng, 0, 3, alph), norm=rng.choice([None, 'ン']), typ=rng.choice(['B', 'C']), a=a, b=b, s=st,
                            syn=rng.choice(['*', '1/2', '000003'])))
            del us2
        else:
            hw = rtext(rng, 1, rng.choice([1, 1, 2, 3]), alph)
            simple.append(len(rows))
            d = '*'
            rows.append(row(hw, rng.choice(ids + ([-1] if rng.random() < .1 else [])), rng.choice(ids), rng.choice(costs), p, reading=rtext(rng, 0, 3, alph),
                            norm=rng.choice([None, None, 'x', '']), dic=d, syn=rng.choice(['*', '7', '']) or '*', written=rtext(rng, 1, 3, alph) if rng.random() < .2 else None))
    for i, w in enumerate(rows):
        if rng.random() < .2:
            w[13] = str(rng.randrange(len(rows)))
    return rows


def gen_world(rng, users=0, plugins=True, splits=True, extreme=False):
    npos = rng.randint(1, 3)
    pos = [['P%d' % i, '一般', '*', '*', '*', '*'] for i in range(npos)] + [NUMPOS, OOVPOS]
    ls, rs = rng.choice([(2, 2), (3, 3), (4, 4), (5, 5), (3, 5), (5, 3)])
    n = min(ls, rs)
    ids = list(range(n))
    costs = []
    for l in range(ls):
        for r in range(rs):
            if rng.random() < .8:
                costs.append([l, r, rng.choice([0, 1, -1, 7, 100, -100, 5000] + ([32767] if rng.random() < .3 else []))])
    sys = [row('1', 0, 0, 10, NUMPOS), row('。', 0, 0, 10, OOVPOS)] + gen_words(rng, rng.randint(3, 12), pos, ids, splits=splits, extreme=extreme)
    # plain ids of compounds refer to rows counted from the two leading ones
    for w in sys[2:]:
        for k in (15, 16, 17):
            if w[k] != '*':
                w[k] = '/'.join(str(int(x) + 2) for x in w[k].split('/'))
        if w[13] != '*':
            w[13] = str(int(w[13]) + 2)
    us = []
    for u in range(users):
        upos = pos + [['U%d' % u, str(j), '*', '*', '*', '*'] for j in range(rng.randint(0, 2))]
        simple_base = [w for w in sys]
        us.append(gen_words(rng, rng.randint(1, 4), upos, ids, base=simple_base, prefix='U', splits=splits))
    chardef = rchardef(rng)
    w = {'pos': pos, 'matrix': [ls, rs, costs], 'sys': sys, 'users': us, 'chardef': chardef, 'input': [], 'path': [], 'oov': [], 'cats': {}, 'rules': []}
    if plugins:
        if rng.random() < .6:
            w['input'].append({'class': 'sudachipy.plugin.input_text.DefaultInputTextPlugin'})
        if rng.random() < .5:
            w['input'].append({'class': 'sudachipy.plugin.input_text.ProlongedSoundMarkInputTextPlugin', 'prolongedSoundMarks': ['ー', '〜', 'a'][:rng.randint(1, 3)],
                               'replacementSymbol': rng.choice(['ー', 'ーー', 'ab'])})
        if rng.random() < .5:
            w['path'].append({'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin', 'enableNormalize': rng.random() < .8})
        if rng.random() < .5:
            w['path'].append({'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'oovPOS': OOVPOS, 'minLength': rng.choice([1, 2, 3])})
    if rng.random() < .6:
        for c in rng.sample(CATS, rng.randint(1, 6)):
            w['cats'][c] = [rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 3)]
            for _ in range(rng.choice([0, 1, 1, 2])):
                w['rules'].append([c, rng.choice(ids), rng.choice(ids), rng.choice([0, 500, 30000]), rng.randrange(len(pos))])
        w['oov'].append({'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'mchar.def', 'unkDef': 'unk.def'})
    w['oov'].append({'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': OOVPOS, 'leftId': rng.choice(ids), 'rightId': rng.choice(ids), 'cost': rng.choice([30000, 0])})
    return w


def gen_text(rng, w, hi=10):
    out = []
    words = [r[0] for r in w['sys']] + [r[0] for u in w['users'] for r in u]
    for _ in range(rng.randint(1, hi)):
        r = rng.random()
        if r < .5:
            out.append(rng.choice(words))
        elif r < .9:
            out.append(rtext(rng, 1, 2, WALPH + ['Ａ', 'ー', 'ー', '〜', '㍿', 'ｶﾞ', 'B', '3']))
        else:
            out.append(rchar(rng))
    return ''.join(out)


def build_files(w, d):
    from sudachipy.dictionarylib import SYSTEM_DICT_VERSION_2, USER_DICT_VERSION_3
    from sudachipy.dictionarylib.binarydictionary import BinaryDictionary
    from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
    from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
    from sudachipy.dictionarylib.userdictionarybuilder import UserDictionaryBuilder
    with open(os.path.join(d, 'sys.csv'), 'w', encoding='utf-8', newline='') as f:
        f.write(csv_text(w['sys']))
    ls, rs, costs = w['matrix']
    mt = '%d %d\n' % (ls, rs) + ''.join('%d %d %d\n' % tuple(c) for c in costs)
    p = os.path.join(d, 'system.dic')
    with open(p, 'wb') as f:
        f.write(DictionaryHeader(SYSTEM_DICT_VERSION_2, 1, 'sys').to_bytes())
        DictionaryBuilder(logger=Log()).build([os.path.join(d, 'sys.csv')], io.StringIO(mt), f)
    ups = []
    if w['users']:
        base = BinaryDictionary.from_system_dictionary(p)
        for k, rows in enumerate(w['users']):
            up = os.path.join(d, 'user%d.dic' % k)
            with open(os.path.join(d, 'user.csv'), 'w', encoding='utf-8', newline='') as f:
                f.write(csv_text(rows))
            with open(up, 'wb') as f:
                f.write(DictionaryHeader(USER_DICT_VERSION_3, 1, 'user').to_bytes())
                UserDictionaryBuilder(base.grammar, base.lexicon, logger=Log()).build([os.path.join(d, 'user.csv')], None, f)
            ups.append(up)
    with open(os.path.join(d, 'char.def'), 'w', encoding='utf-8') as f:
        f.write('\n'.join(chardef_lines(w['chardef'])) + '\n')
    with open(os.path.join(d, 'mchar.def'), 'w', encoding='utf-8') as f:
        for c, v in w['cats'].items():
            f.write('%s %d %d %d\n' % (c, v[0], v[1], v[2]))
    with open(os.path.join(d, 'unk.def'), 'w', encoding='utf-8') as f:
        for c, l, r, cost, pi in w['rules']:
            f.write('%s,%d,%d,%d,%s\n' % (c, l, r, cost, ','.join(w['pos'][pi])))
    st = {'systemDict': 'system.dic', 'characterDefinitionFile': 'char.def', 'userDict': [os.path.basename(u) for u in ups],
          'inputTextPlugin': w['input'], 'oovProviderPlugin': w['oov'], 'pathRewritePlugin': w['path']}
    sp = os.path.join(d, 'settings.json')
    with open(sp, 'w', encoding='utf-8') as f:
        json.dump(st, f)
    return sp


class World:
    def __init__(self, w):
        from sudachipy.dictionary import Dictionary
        self.w = w
        self.dir = tempfile.mkdtemp(prefix='verif-w-')
        try:
            sp = build_files(w, self.dir)
            self.settings = sp
            self.dict = Dictionary(config_path=sp)
        except BaseException:
            shutil.rmtree(self.dir, ignore_errors=True)
            raise

    def pos_table(self):
        """part of speech of (dictionary number, pos strings) is looked up by strings"""
        return self.dict.grammar.pos_list

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def entries(w):
    """all rows with their global word id: (dictionary number, index, row)"""
    out = [(0, i, r) for i, r in enumerate(w['sys'])]
    for k, u in enumerate(w['users']):
        out += [(k + 1, i, r) for i, r in enumerate(u)]
    return out


def ref_units(w, dic, ref):
    """global ids of a unit string written in dictionary `dic`"""
    if ref == '*':
        return []
    out = []
    for x in ref.split('/'):
        if x.startswith('U'):
            out.append((dic << 28) | int(x[1:]))
        else:
            out.append(int(x))
    return out


def entry_of(w, gid):
    d = gid >> 28
    rows = w['sys'] if d == 0 else w['users'][d - 1]
    return d, rows[gid & 0x0FFFFFFF]


def ref_wordinfo(w, gid):
    d, r = entry_of(w, gid)
    rows = w['sys'] if d == 0 else w['users'][d - 1]
    surface = r[4]
    dfid = -1 if r[13] == '*' else int(r[13])
    return {'surface': surface, 'head_word_length': len(r[0].encode('utf-8')), 'pos': list(r[5:11]), 'reading_form': r[11] or surface, 'normalized_form': r[12] or surface,
            'dictionary_form': surface if dfid < 0 else rows[dfid][4], 'a': ref_units(w, d, r[15]), 'b': ref_units(w, d, r[16]), 's': ref_units(w, d, r[17]),
            'syn': [] if r[18] == '*' else [int(x) for x in r[18].split('/')]}


def check_wi(w, grammar, wi, gid):
    e = ref_wordinfo(w, gid)
    g = {'surface': wi.surface, 'head_word_length': wi.head_word_length, 'pos': list(grammar.get_part_of_speech_string(wi.pos_id)), 'reading_form': wi.reading_form,
         'normalized_form': wi.normalized_form, 'dictionary_form': wi.dictionary_form, 'a': list(wi.a_unit_split), 'b': list(wi.b_unit_split), 's': list(wi.word_structure),
         'syn': list(wi.synonym_group_ids)}
    bad = ['%s is %r, expected %r' % (k, g[k], e[k]) for k in e if g[k] != e[k]]
    return 'word %d of dictionary %d: %s' % (gid & 0x0FFFFFFF, gid >> 28, '; '.join(bad)) if bad else None


def ref_candidates(w, rt, p, posids=None):
    """all candidates that the lattice must get at byte position p: list of (begin, end, left, right, cost, word id or None, surface)"""
    out = []
    has = False
    for d, i, r in entries(w):
        if r[1] == '-1':
            continue
        hb = r[0].encode('utf-8')
        e = p + len(hb)
        if rt.b[p:e] == hb and (e == len(rt.b) or rt.can_bow(e)):
            out.append((p, e, int(r[1]), int(r[2]), int(r[3]), (d << 28) | i, r[4]))
            has = True
    def oov(pl, has):
        res = []
        if pl['class'].endswith('MeCabOovProviderPlugin'):
            for (b, e, l, r, c, pi) in ref_mecab(rt, p, has, w['cats'], w['rules']):
                res.append((b, e, l, r, c, None, rt.b[b:e].decode('utf-8')))
        elif not has:
            e = rt.next_bow(p)
            res.append((p, e, pl['leftId'], pl['rightId'], pl['cost'], None, rt.b[p:e].decode('utf-8')))
        return res
    if 'NOOOVBOW' not in rt.cats[rt.ch[p]]:
        for pl in w['oov']:
            x = oov(pl, has)
            out += x
            has = has or bool(x)
    if not has:
        x = oov(w['oov'][-1], False)
        out += x
        has = has or bool(x)
    return out


def cost_table(w):
    ls, rs, costs = w['matrix']
    t = {}
    for l, r, c in costs:
        t[l, r] = c
    return t


def ref_lattice(w, rt):
    """nodes (with minimum total cost or None) and the minimum cost of a path; raises LookupError with a position without candidate"""
    ct = cost_table(w)
    n = len(rt.b)
    ends = {0: [((0, 0, 0, 0, 0, None, None), 0)]}

    def best(left, p):
        m = None
        for nd, tot in ends.get(p, []):
            if tot is None:
                continue
            c = ct.get((nd[3], left), 0)
            if c == 0x7fff:
                continue
            if m is None or tot + c < m:
                m = tot + c
        return m
    for p in range(n):
        if not rt.can_bow(p) or not ends.get(p):
            continue
        cs = ref_candidates(w, rt, p)
        if not cs:
            raise LookupError(p)
        for c in cs:
            m = best(c[2], p)
            ends.setdefault(c[1], []).append((c, None if m is None else m + c[4]))
    return ends, best(0, n)


def rt_of(w, text):
    t, m = ref_input(text, w['input'])
    return RefText(t, m, lambda cp: ref_cats(w['chardef'], cp))


def node_tuple(n):
    d = n.get_dictionary_id()
    wi = n.get_word_info()
    return (n.get_begin(), n.get_end(), n.get_left_id(), n.get_right_id(), n.get_path_cost(), None if d < 0 else n.get_word_id(), wi.surface)
