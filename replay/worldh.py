from world import *
from sudachipy.tokenizer import Tokenizer
M = Tokenizer.SplitMode
MODES = {'A': M.A, 'B': M.B, 'C': M.C}


class WorldHarness:
    """cases: a world and some texts; the world is kept between cases to save time"""
    users = (0, 2)
    texts = 6
    hi = 10
    extreme = False

    def gen(self, rng, n):
        if n % 4 == 0 or not hasattr(self, '_w'):
            self._w = gen_world(rng, users=rng.randint(*self.users), extreme=self.extreme)
        return {'world': self._w, 'texts': [gen_text(rng, self._w, self.hi) for _ in range(self.texts)]}

    def key(self, c):
        return json.dumps(c['texts'])

    def world(self, w):
        k = json.dumps(w)
        if getattr(self, '_k', None) != k:
            if getattr(self, '_cur', None):
                self._cur.close()
            self._cur, self._k = None, None
            self._cur = World(w)
            self._k = k
        return self._cur

    def close(self):
        if getattr(self, '_cur', None):
            self._cur.close()

    def shrinks(self, c):
        if len(c['texts']) > 1:
            for i in range(len(c['texts'])):
                yield dict(c, texts=c['texts'][:i] + c['texts'][i + 1:])
        for i, t in enumerate(c['texts']):
            for j in range(len(t)):
                if len(t) > 1:
                    yield dict(c, texts=c['texts'][:i] + [t[:j] + t[j + 1:]] + c['texts'][i + 1:])

    def run(self, c):
        W = self.world(c['world'])
        for t in c['texts']:
            r = self.check(W, c['world'], t)
            if r:
                return '%r: %s' % (t, r)


def tok(W, text, mode=None, t=None):
    """morphemes, or the error that the analysis is allowed to end in"""
    t = t or W.dict.create()
    try:
        return t.tokenize(text, mode)
    except AttributeError as e:
        if 'EOS is not connected' in str(e):
            return None
        raise
