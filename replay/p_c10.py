from worldh import *


def view(ms):
    return [[m.begin(), m.end(), m.surface(), list(m.part_of_speech()), m.dictionary_form(), m.normalized_form(), m.reading_form(), m.is_oov(), m.word_id() if m.dictionary_id() >= 0 else None,
             m.dictionary_id(), list(m.synonym_group_ids())] for m in ms]


class Boom:
    """an input, OOV or path plugin that fails for texts with a chosen character"""

    def __init__(self, ch):
        self.ch = ch

    def set_up(self, g=None):
        pass

    def get_oov(self, inp, p, has):
        if self.ch in inp.get_text() and p > 0:
            raise KeyError('boom')
        return []


class BoomPath(Boom):
    def rewrite(self, inp, path, lattice):
        if self.ch in inp.get_text():
            raise KeyError('boom')


class BoomInput(Boom):
    def rewrite(self, b):
        if self.ch in b.get_text():
            raise KeyError('boom')


class Harness(WorldHarness):
    rule = 'random dictionaries and sequences of texts (long, short, failing in plugins, in the lattice or for lack of candidates) on one tokenizer, compared with a fresh tokenizer; non-trivial: every case'
    texts = 8

    def gen(self, rng, n):
        c = WorldHarness.gen(self, rng, n)
        c['texts'] = [gen_text(rng, self._w, rng.choice([1, 2, 5, 14])) for _ in range(8)]
        c['boom'] = [rng.choice([0, 0, 1, 2, 3]), rng.choice(WALPH)]
        c['nodefault'] = rng.random() < .3
        c['modes'] = [rng.choice(['A', 'B', 'C', None]) for _ in c['texts']]
        return c

    def shrinks(self, c):
        if len(c['texts']) > 1:
            for i in range(len(c['texts'])):
                yield dict(c, texts=c['texts'][:i] + c['texts'][i + 1:], modes=c['modes'][:i] + c['modes'][i + 1:])

    def make(self, W, c):
        t = W.dict.create()
        k, ch = c['boom']
        t._oov_provider_plugins = list(t._oov_provider_plugins)
        t._path_rewrite_plugins = list(t._path_rewrite_plugins)
        t._input_text_plugins = list(t._input_text_plugins)
        if k == 1:
            t._oov_provider_plugins.insert(0, Boom(ch))
        if k == 2:
            t._path_rewrite_plugins.append(BoomPath(ch))
        if k == 3:
            t._input_text_plugins.append(BoomInput(ch))
        if c['nodefault']:
            t._oov_provider_plugins = [Boom(ch)] if k == 1 else [p for p in t._oov_provider_plugins if 'Simple' not in type(p).__name__] or [Boom('\x00')]
            t.default_oov_provider = t._oov_provider_plugins[-1]
        return t

    def go(self, t, x, m):
        try:
            return view(t.tokenize(x, MODES[m] if m else None))
        except (AttributeError, RuntimeError, KeyError) as e:
            return [type(e).__name__]

    def run(self, c):
        W = self.world(c['world'])
        t = self.make(W, c)
        for i, x in enumerate(c['texts']):
            a = self.go(t, x, c['modes'][i])
            b = self.go(self.make(W, c), x, c['modes'][i])
            if a != b:
                return 'text %d (%r): %r after the earlier calls, %r with a fresh tokenizer' % (i, x, a, b)
