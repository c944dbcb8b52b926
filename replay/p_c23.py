from world import *
import re
from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
from sudachipy.dictionarylib.userdictionarybuilder import UserDictionaryBuilder

LITS = ['\\u0041', '\\u{41}', '\\u{1F600}', '\\u3042', '\\u{0}', '\\u{10FFFF}', '\\u00', '\\u{}', '\\u', '\\uD', '\\u{g}', '\\\\u0041', 'u0041', '\\u{110000}', '\\u002c', '\\u00e9', '\\U0041', '\\u005cu0041',
        '\\u{41', '\\u41}', '{}', '\\x41', '\\n', '\\']


def lit(s):
    """the string with its literals replaced, or None if one names no character"""
    out, i = '', 0
    while i < len(s):
        m = re.compile(r'\\u(?:([0-9a-fA-F]{4})|\{([0-9a-fA-F]+)\})').match(s, i)
        if m:
            v = int(m.group(1) or m.group(2), 16)
            if v > 0x10ffff:
                return None
            out += chr(v)
            i = m.end()
        else:
            out += s[i]
            i += 1
    return out


def u16(s):
    return sum(2 if ord(c) > 0xffff else 1 for c in s)


class Harness:
    rule = 'random rows (column counts 0 to 20, unicode literals whole and broken, long columns around the limits, ids and costs, unit columns with up to 130 units, word types), read by the system and the user dictionary builder; non-trivial: every distinct row'

    def cell(self, rng):
        r = rng.random()
        if r < .5:
            return ''.join(rng.choice(['a', '東', ',', '"', ' ', '\n', '😀']) for _ in range(rng.randint(0, 3)))
        return ''.join(rng.choice(LITS + ['a', '東']) for _ in range(rng.randint(1, 3)))

    def gen(self, rng, n):
        pos = [['P%d' % rng.randint(0, 2), 'x', '*', '*', '*', '*'] for _ in range(3)]
        rows = []
        for p in pos:
            r = row(self.cell(rng) or 'w', rng.choice([0, 1, -1]), rng.choice([0, 3]), rng.choice([0, -7, 32767, -32768]), p, reading=self.cell(rng), norm=self.cell(rng), written=self.cell(rng),
                    dic=rng.choice(['*', '0', '1']), typ=rng.choice(['A', 'B', 'C', '']), syn=rng.choice(['*', '1', '1/2/3', '000007']))
            k = rng.random()
            if k < .1:
                r = r[:rng.choice([0, 1, 17, 18, 18])]
            elif k < .15:
                r = r + ['extra', 'more']
            elif k < .25:
                i = rng.choice([0, 4, 5, 10, 11, 12])
                r[i] = rng.choice(['a' * 32767, 'a' * 32768, 'あ' * 10922, 'あ' * 10923, '😀' * 8191, '😀' * 8192, '😀' * 16383, '😀' * 16384, 'あ' * 32767, 'あ' * 32768, ''])
            elif k < .3:
                r[rng.randint(5, 10)] = rng.choice([',', 'a,b', '\\u002c'])
            if len(r) > 17:
                for i in (15, 16, 17):
                    if rng.random() < .2:
                        r[i] = '/'.join(['0'] * rng.choice([1, 2, 126, 127, 128, 130]))
                if len(r) > 18 and rng.random() < .1:
                    r[18] = '/'.join(['5'] * rng.choice([1, 127, 128, 200]))
            rows.append(r)
        return {'rows': rows, 'user': rng.random() < .4}

    def shrinks(self, c):
        for i in range(len(c['rows'])):
            if len(c['rows']) > 1:
                yield dict(c, rows=c['rows'][:i] + c['rows'][i + 1:])
        for i, r in enumerate(c['rows']):
            for j in range(len(r)):
                if len(r[j]) > 1:
                    for s in (r[j][:len(r[j]) // 2], r[j][1:]):
                        yield dict(c, rows=c['rows'][:i] + [r[:j] + [s] + r[j + 1:]] + c['rows'][i + 1:])

    def run(self, c):
        class G:
            def get_part_of_speech_id(self, s): return 1 if list(s) == ['P0', 'x', '*', '*', '*', '*'] else -1
            def get_part_of_speech_size(self): return 9
        b = UserDictionaryBuilder(G(), None, logger=Log()) if c['user'] else DictionaryBuilder(logger=Log())
        table = []
        for r in c['rows']:
            exp = self.ref(r)
            try:
                e = b.parse_line(list(r))
            except ValueError as ex:
                if exp is None:
                    # part of speech of a refused row may have been registered already
                    self.sync(b, table)
                    continue
                return '%r is refused: %s' % (self.short(r), ex)
            if exp is None:
                return '%r is accepted' % (self.short(r),)
            wi = e.wordinfo
            p = exp.pop('pos')
            if c['user'] and p == ['P0', 'x', '*', '*', '*', '*']:
                pid = 1
            else:
                p = ','.join(p)
                if p not in table:
                    table.append(p)
                pid = table.index(p) + (9 if c['user'] else 0)
            exp['pos_id'] = pid
            got = {'headword': e.headword, 'parameters': list(e.parameters), 'a': e.aunit_split_string, 'b': e.bunit_split_string, 's': e.cunit_split_string, 'surface': wi.surface,
                   'hl': wi.head_word_length, 'norm': wi.normalized_form, 'dic': wi.dictionary_form_word_id, 'read': wi.reading_form, 'syn': list(wi.synonym_group_ids), 'pos_id': wi.pos_id}
            for k in exp:
                if exp[k] != got[k]:
                    return '%r: %s is %r, expected %r' % (self.short(r), k, got[k], exp[k])
            if b.pos_table.get_list() != table:
                return 'part of speech table %r, expected %r' % (b.pos_table.get_list(), table)
        # the same rows through the csv reader: one entry each, indexed under the headword unless the left id is -1
        ok = [r for r in c['rows'] if self.ref(r) is not None and all('\x00' not in x for x in r)]
        b2 = UserDictionaryBuilder(G(), None, logger=Log()) if c['user'] else DictionaryBuilder(logger=Log())
        f = io.StringIO(csv_text(ok), newline='')
        f.name = 'x'
        b2.build_lexicon(f)
        if [e.wordinfo.surface for e in b2.entries] != [self.ref(r)['surface'] for r in ok]:
            return 'entries of the file'
        keys = {}
        for i, r in enumerate(ok):
            x = self.ref(r)
            if x['headword']:
                keys.setdefault(x['headword'].encode('utf-8'), []).append(i)
        if {k: list(v) for k, v in b2.trie_keys.items()} != keys:
            return 'index of the file: %r, expected %r' % (dict(b2.trie_keys), keys)

    def sync(self, b, table):
        table[:] = b.pos_table.get_list()

    def short(self, r):
        return [x if len(x) < 40 else '%s...(%d)' % (x[:3], len(x)) for x in r]

    def ref(self, r):
        if len(r) < 18:
            return None
        r = [lit(x) for x in r]
        if None in r:
            return None
        if not r[0] or len(r[0].encode('utf-8', 'surrogatepass')) > 32767 or any(u16(x) > 32767 for x in r[4:13]):
            return None
        if any(0xd800 <= ord(ch) < 0xe000 for x in r for ch in x):
            return None
        if any(',' in x for x in r[5:11]):
            return None
        if r[14] == 'A' and (r[15] != '*' or r[16] != '*'):
            return None
        if any(x.count('/') > 126 for x in r[15:18]):
            return None
        try:
            syn = [] if len(r) < 19 or r[18] == '*' else [int(x) for x in r[18].split('/')]
            if len(syn) > 127:
                return None
            return {'headword': None if r[1] == '-1' else r[0], 'parameters': [int(x) for x in r[1:4]], 'a': r[15], 'b': r[16], 's': r[17], 'surface': r[4], 'hl': len(r[0].encode('utf-8')),
                    'norm': r[12], 'dic': -1 if r[13] == '*' else int(r[13]), 'read': r[11], 'syn': syn, 'pos': r[5:11]}
        except ValueError:
            return None
