from common import *
import refnum
from sudachipy.plugin.path_rewrite.numericparser import NumericParser

A = '0123456789〇一二三四五六七八九十百千万億兆.,'


class Harness:
    rule = 'random strings over the numeral alphabet (biased to well-formed numerals, up to 40 characters) on a fresh and on a reused parser; non-trivial: accepted'
    fixed = [{'s': a} for a in A] + [{'s': a + b} for a in A for b in A]

    def __init__(self):
        self.p = NumericParser()

    def gen(self, rng, n):
        if rng.random() < .25:
            return {'s': rtext(rng, 1, rng.choice([3, 5, 8, 20]), rng.choice([A, '0019十百千万億兆.,', '1,0.', '一二〇十千万', '05千百.万']))}
        out = ''
        def num():
            r = rng.random()
            if r < .15:
                return ''
            s = ''.join(rng.choice('0123456789〇一九' if rng.random() < .8 else '0') for _ in range(rng.choice([1, 1, 1, 2, 3, 4, 6])))
            if rng.random() < .15:
                s = s[:3] + ',' + ''.join(rng.choice('0123') for _ in range(3))
            if rng.random() < .2:
                s += '.' + ''.join(rng.choice('0012') for _ in range(rng.choice([1, 2, 3, 5])))
            return s
        for u in ['兆', '億', '万', '']:
            if rng.random() < .5:
                for v in '千百十':
                    if rng.random() < .3:
                        out += num() + v
                out += num() + u
        if rng.random() < .15:
            i = rng.randint(0, len(out))
            out = out[:i] + rng.choice(A) + out[i:]
        return {'s': out or '0'}

    def key(self, c):
        return c['s'] if refnum.value(c['s']) is not None else None

    def shrinks(self, c):
        for i in range(len(c['s'])):
            if len(c['s']) > 1:
                yield {'s': c['s'][:i] + c['s'][i + 1:]}

    def run(self, c):
        s = c['s']
        if any(x not in A for x in s):
            return None
        v = refnum.value(s)
        for p in (NumericParser(), self.p):
            p.clear()
            ok = all(p.append(x) for x in s) and p.done()
            if v is None:
                if ok:
                    return '%s is accepted as %s' % (s, p.get_normalized())
            elif not ok:
                return '%s (%s) is refused: %s' % (s, v, p.error_state)
            else:
                g = p.get_normalized()
                if not refnum.plain(g, v):
                    return '%s is normalized to %s, its value is %s' % (s, g, v)
