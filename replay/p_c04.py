from world import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
from sudachipy.plugin.input_text import DefaultInputTextPlugin
A = ['a', 'B', 'Ａ', '㍿', 'ｶ', 'ﾞ', 'İ', 'α', 'Δ', 'あ', 'ー', 'Ⅲ', 'ﬁ', '𝐀', '1', 'ß', 'Σ', '２']


class Harness:
    rule = 'random rewrite lists (prefix-related keys, length-changing replacements, ignore list) and texts; non-trivial: something is rewritten'

    def gen(self, rng, n):
        al = rng.sample(A, rng.randint(2, 6))
        keys = {}
        for _ in range(rng.randint(0, 6)):
            keys[rtext(rng, 1, 4, al)] = rtext(rng, 1, 4, al + ['x'])
        ign = [a.lower() for a in al if rng.random() < .3 and len(a.lower()) == 1]
        return {'text': rtext(rng, 0, 12, al), 'keys': keys, 'ign': ign}

    def key(self, c):
        return json.dumps(c) if ref_default_repls(c['text'], c['keys'], set(c['ign'])) else None

    def run(self, c):
        f = tempfile.NamedTemporaryFile('w', suffix='.def', encoding='utf-8', delete=False)
        try:
            f.write('# comment\n\n')
            for i in c['ign']:
                f.write('%s\n' % i)
            for k, v in c['keys'].items():
                f.write('%s\t%s\n' % (k, v))
            f.close()
            p = DefaultInputTextPlugin()
            p.read_rewrite_lists(f.name)
        finally:
            os.unlink(f.name)
        for rounds in (1, 2):
            b = UTF8InputTextBuilder(c['text'], None)
            p.rewrite(b)
            t, m = ref_apply(c['text'], list(range(len(c['text']) + 1)), ref_default_repls(c['text'], c['keys'], set(c['ign'])))
            if b.get_text() != t:
                return 'text is %r, expected %r' % (b.get_text(), t)
            if list(b.modified_to_original) != m:
                return 'map is %r, expected %r' % (b.modified_to_original, m)
