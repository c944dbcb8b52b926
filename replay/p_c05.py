from world import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
from sudachipy.plugin.input_text import ProlongedSoundMarkInputTextPlugin


class Harness:
    rule = 'random texts over a few characters, mark sets and replacement symbols of 1-3 characters; non-trivial: at least one run is collapsed'

    def gen(self, rng, n):
        al = rng.sample(['ー', '〜', '-', 'a', 'あ', '𠮷', 'ｰ'], rng.randint(2, 4))
        return {'text': rtext(rng, 0, 14, al), 'marks': rng.sample(al, rng.randint(0, len(al))), 'sym': rng.choice(['ー', '-', 'ーー', 'abc', al[0], al[0] * 2]), 'default': rng.random() < .1}

    def key(self, c):
        return json.dumps(c) if ref_psm_repls(c['text'], set(c['marks']), c['sym']) else None

    def run(self, c):
        js = {'prolongedSoundMarks': c['marks']}
        sym = 'ー'
        if not c['default']:
            js['replacementSymbol'] = sym = c['sym']
        p = ProlongedSoundMarkInputTextPlugin(js)
        p.set_up()
        b = UTF8InputTextBuilder(c['text'], None)
        p.rewrite(b)
        t, m = ref_apply(c['text'], list(range(len(c['text']) + 1)), ref_psm_repls(c['text'], set(c['marks']), sym))
        if b.get_text() != t:
            return 'text is %r, expected %r' % (b.get_text(), t)
        if list(b.modified_to_original) != m:
            return 'map is %r, expected %r' % (b.modified_to_original, m)
