from worldh import *


class Harness(WorldHarness):
    rule = 'random dictionaries, plugin configurations and texts, modes A, B and C; non-trivial: every case (the texts differ)'

    def check(self, W, w, text):
        for mn, mode in MODES.items():
            ms = tok(W, text, mode)
            if ms is None:
                return None
            at = 0
            for m in ms:
                if m.begin() != at:
                    return 'mode %s: a morpheme begins at %d, expected %d' % (mn, m.begin(), at)
                at = m.end()
                if m.surface() != text[m.begin():m.end()]:
                    return 'mode %s: surface %r is not the slice %r' % (mn, m.surface(), text[m.begin():m.end()])
            if at != len(text):
                return 'mode %s: the last morpheme ends at %d, not %d' % (mn, at, len(text))
            if ''.join(m.surface() for m in ms) != text or str(ms) != text:
                return 'mode %s: the surfaces do not concatenate to the text' % mn
        if len(W.dict.create().tokenize('')) != 0:
            return 'empty text gives morphemes'
