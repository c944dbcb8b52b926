from world import *
from sudachipy.dictionarylib.charactercategory import CharacterCategory


class Harness:
    rule = 'random definition files (overlapping, nested, equal, adjacent ranges in any order, comments, property lines); every code point near a bound is looked up; non-trivial: two or more ranges'

    def gen(self, rng, n):
        k = rng.randint(0, 7)
        hi = rng.choice([4, 8, 20])
        base = rng.choice([0, 0x30, 0x3040, 0x1F600, 0x10FFFF - 30])
        rs = []
        for _ in range(k):
            a = base + rng.randint(0, hi)
            b = max(a, min(0x10FFFF, a + rng.choice([0, 0, 1, 2, 5, hi])))
            rs.append([a, b, [rng.choice(CATS[:6]) for _ in range(rng.randint(1, 3))]])
        return {'ranges': rs, 'single': rng.random() < .5, 'extra': rng.random() < .5}

    def key(self, c):
        return json.dumps(c) if len(c['ranges']) > 1 else None

    def run(self, c):
        f = tempfile.NamedTemporaryFile('w', suffix='.def', encoding='utf-8', delete=False)
        try:
            for i, (a, b, cs) in enumerate(c['ranges']):
                if c['extra']:
                    f.write(['# c\n', '\n', 'DEFAULT 0 1 0\n', '   \n'][i % 4])
                f.write(('0x%X %s' % (a, ' '.join(cs)) if a == b and c['single'] else '0x%04x..0x%04X %s' % (a, b, '\t'.join(cs))) + (' # note' if i % 2 else '') + '\n')
            f.close()
            cc = CharacterCategory()
            cc.read_character_definition(f.name)
        finally:
            os.unlink(f.name)
        pts = {0, 0x3042, 0x10FFFF}
        for a, b, _ in c['ranges']:
            pts |= {x for y in (a, b) for x in range(y - 2, y + 3)} | {(a + b) // 2}
        for p in sorted(x for x in pts if 0 <= x <= 0x10FFFF):
            g = {x.name for x in cc.get_category_types(p)}
            e = ref_cats(c['ranges'], p)
            if g != e:
                return 'categories of U+%04X are %r, expected %r' % (p, sorted(g), sorted(e))
