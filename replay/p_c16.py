from world import *


class Harness:
    rule = 'random system and user dictionaries with homographs, prefixes and unindexed words; every offset (also inside characters) of random byte texts is looked up; non-trivial: every case'

    def gen(self, rng, n):
        if n % 3 == 0 or not hasattr(self, '_w'):
            al = rng.sample(WALPH, rng.randint(1, 4))
            pos = [['P', 'x', '*', '*', '*', '*']]
            sys = [row('1', 0, 0, 0, pos[0])] + [row(rtext(rng, 1, 4, al), rng.choice([0, 0, 0, -1]), 0, i, pos[0]) for i in range(rng.choice([1, 5, 30]))]
            if rng.random() < .1:
                sys += [row(al[0] * 2, 0, 0, i, pos[0]) for i in range(rng.choice([100, 200]))]
            us = [[row(rtext(rng, 1, 3, al), 0, 0, 0, pos[0]) for _ in range(rng.randint(1, 4))] for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            self._al = al
            self._w = {'pos': pos, 'matrix': [1, 1, []], 'sys': sys, 'users': us, 'chardef': [], 'input': [], 'path': [], 'cats': {}, 'rules': [],
                       'oov': [{'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': pos[0], 'leftId': 0, 'rightId': 0, 'cost': 0}]}
        return {'world': self._w, 'text': rtext(rng, 0, 9, self._al + ['z'])}

    def key(self, c):
        return c['text']

    def run(self, c):
        w = c['world']
        k = json.dumps(w)
        if getattr(self, '_k', None) != k:
            self.close()
            self._cur = World(w)
            self._k = k
        lx = self._cur.dict.lexicon
        b = c['text'].encode('utf-8')
        for o in range(len(b) + 1):
            got = [(int(i), int(e)) for i, e in lx.lookup(b, o)]
            exp = []
            for d, i, r in entries(w):
                h = r[0].encode('utf-8')
                if r[1] != '-1' and b[o:o + len(h)] == h:
                    exp.append(((d << 28) | i, o + len(h)))
            if sorted(got) != sorted(exp):
                return 'lookup(%r, %d) gives %r, expected %r' % (c['text'], o, sorted(got)[:20], sorted(exp)[:20])
            for e in {x[1] for x in got}:
                for d in range(len(w['users']) + 1):
                    ids = [x[0] for x in got if x[1] == e and x[0] >> 28 == d]
                    if ids != sorted(ids):
                        return 'homographs are not in entry order: %r' % ids

    def close(self):
        if getattr(self, '_cur', None):
            self._cur.close()
            self._cur = None
