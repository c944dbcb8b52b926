from world import *
from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
from sudachipy.dictionarylib.userdictionarybuilder import UserDictionaryBuilder
from sudachipy.dictionarylib.lexiconset import LexiconSet

AL = ['a', '東', '京']
POSS = [['P%d' % i, 'x', '*', '*', '*', '*'] for i in range(2)]


def words(rng, n):
    return [row(rtext(rng, 1, 2, AL), rng.choice([0, 0, -1]), 0, 0, rng.choice(POSS), reading=rng.choice(['', 'r', 'rr', 'あ'])) for _ in range(n)]


def inline(r):
    return ','.join([r[4]] + r[5:11] + [r[11]])


class Harness:
    rule = 'random system and user sources and unit references (ids inside and outside, U ids, inline words that exist in the user, the system or no dictionary, escaped ones, malformed ones); non-trivial: every case'

    def gen(self, rng, n):
        if n % 5 == 0 or not hasattr(self, '_s'):
            self._s = [row('1', 0, 0, 0, POSS[0])] + words(rng, rng.randint(1, 6))
            self._u = words(rng, rng.randint(1, 4)) + [row('u', 0, 0, 0, ['UP', 'x', '*', '*', '*', '*'])]
        s, u = self._s, self._u
        refs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.random()
            if k < .25:
                refs.append(str(rng.choice([0, len(s) - 1, len(s), len(s) + 1, rng.randrange(len(s)), 268435456, 268435457, 99999999999])))
            elif k < .5:
                refs.append('U%d' % rng.choice([0, len(u) - 1, len(u), rng.randrange(len(u)), 268435456]))
            elif k < .95:
                x = list(rng.choice(s + u))
                if rng.random() < .3:
                    x[rng.choice([4, 11])] += rng.choice(['', 'a', '東'])
                if rng.random() < .15:
                    x[5] = 'P9'
                if rng.random() < .15:
                    x[4] = ''.join('\\u%04x' % ord(ch) if ord(ch) < 0x10000 and rng.random() < .5 else ch for ch in x[4])
                refs.append(inline(x))
            else:
                refs.append(rng.choice(['', '-1', 'a,b', 'u1', 'U', ' 1x', '1 ']))
        return {'sys': s, 'user': u, 'refs': refs}

    def key(self, c):
        return json.dumps(c['refs'])

    def shrinks(self, c):
        for i in range(len(c['refs'])):
            if len(c['refs']) > 1:
                yield dict(c, refs=c['refs'][:i] + c['refs'][i + 1:])

    def expect(self, c, ref, user):
        """id or None if it must be refused"""
        import re
        if re.fullmatch(r'U?[0-9]+', ref):
            n = int(ref.lstrip('U'))
            if not user:
                return n if n < len(c['sys']) else None
            if ref[0] == 'U':
                return (1 << 28) | n if n < len(c['user']) else ('any' if n >= 1 << 28 else None)
            if n >= 1 << 28:
                return 'any'
            return n if n < len(c['sys']) else None
        cols = ref.split(',')
        if len(cols) < 8:
            return None
        hw = re.sub(r'\\u([0-9a-fA-F]{4})', lambda m: chr(int(m.group(1), 16)), cols[0])
        for rows, base in ([(c['user'], 1 << 28)] if user else []) + [(c['sys'], 0)]:
            ids = [i for i, r in enumerate(rows) if r[4] == hw and r[5:11] == cols[1:7] and (r[11] or (r[4] if base == 0 and user else '')) == cols[7]]
            if base == 0 and user:
                return {base | i for i in ids} or None
            if ids:
                return {base | ids[0]}
        return None

    def run(self, c):
        k = json.dumps([c['sys']])
        if getattr(self, '_k', None) != k:
            self.close()
            w = {'pos': POSS, 'matrix': [1, 1, []], 'sys': c['sys'], 'users': [], 'chardef': [], 'input': [], 'path': [], 'cats': {}, 'rules': [],
                 'oov': [{'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': POSS[0], 'leftId': 0, 'rightId': 0, 'cost': 0}]}
            self._cur = World(w)
            self._k = k
        g, lx = self._cur.dict.dictionaries[0].grammar, self._cur.dict.dictionaries[0].lexicon
        for user in (False, True):
            for lex in ([lx, LexiconSet(lx)] if user else [None]):
                b = UserDictionaryBuilder(g, lex, logger=Log()) if user else DictionaryBuilder(logger=Log())
                f = io.StringIO(csv_text(c['user'] if user else c['sys']))
                f.name = 'x'
                b.build_lexicon(f)
                exp = [self.expect(c, r, user) for r in c['refs']]
                if 'any' in exp:
                    continue
                try:
                    ids = b.parse_splitinfo('/'.join(c['refs']))
                except ValueError as e:
                    if None in exp:
                        continue
                    return '%r is refused (%s dictionary): %s' % (c['refs'], 'user' if user else 'system', e)
                if '/'.join(c['refs']) == '*':
                    continue
                if None in exp:
                    return '%r is stored as %r (%s dictionary), but a reference does not exist' % (c['refs'], ids, 'user' if user else 'system')
                if len(ids) != len(exp) or any(i not in (e if isinstance(e, set) else {e}) for i, e in zip(ids, exp)):
                    return '%r is stored as %r (%s dictionary), expected %r' % (c['refs'], ids, 'user' if user else 'system', exp)

    def close(self):
        if getattr(self, '_cur', None):
            self._cur.close()
            self._cur = None
