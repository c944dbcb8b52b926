from common import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder


class Harness:
    rule = 'random text and a random sequence of replacements of non-empty ranges by non-empty strings; non-trivial: at least one replacement'

    def gen(self, rng, n):
        t = rtext(rng, 1, 12)
        ops = []
        ln = len(t)
        for _ in range(rng.randint(0, 5)):
            b = rng.randrange(0, ln)
            e = rng.randint(b + 1, ln + (2 if rng.random() < .1 else 0))
            s = rtext(rng, 1, rng.choice([1, 2, 3, 6]))
            ops.append([b, e, s])
            ln = ln - (min(e, ln) - b) + len(s)
        bad = None
        if rng.random() < .2:
            bad = rng.choice([[-1, 1], [ln + 1, ln + 2], [min(1, ln), 0], [0, 0]])
        return {'text': t, 'ops': ops, 'bad': bad}

    def key(self, c):
        return json.dumps(c) if c['ops'] else None

    def shrinks(self, c):
        for i in range(len(c['ops'])):
            yield dict(c, ops=c['ops'][:i] + c['ops'][i + 1:])

    def run(self, c):
        b = UTF8InputTextBuilder(c['text'], None)
        t, m = c['text'], list(range(len(c['text']) + 1))
        for (x, y, s) in c['ops']:
            if x >= len(t) or x >= y:
                return None
            y2 = min(y, len(t))
            b.replace(x, y, s)
            t, m = t[:x] + s + t[y2:], m[:x] + [m[x]] + [m[y2]] * (len(s) - 1) + m[y2:]
            if b.get_text() != t:
                return 'text is %r, expected %r' % (b.get_text(), t)
            if list(b.modified_to_original) != m:
                return 'map is %r, expected %r' % (b.modified_to_original, m)
            if b.get_original_text() != c['text']:
                return 'the original text changed'
        if c.get('bad'):
            try:
                b.replace(c['bad'][0], c['bad'][1], 'x')
                if c['bad'][0] < 0 or c['bad'][0] >= c['bad'][1]:
                    return 'invalid range %r accepted' % (c['bad'],)
            except (IndexError, AttributeError):
                pass
        return None
