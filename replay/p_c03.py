from world import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
from sudachipy.dictionarylib.categorytype import CategoryType


class CC:
    def __init__(self, t):
        self.t = t

    def get_category_types(self, cp):
        return {CategoryType[c] for c in self.t.get(chr(cp), ['DEFAULT'])}


class G:
    def __init__(self, t):
        self.c = CC(t)

    def get_character_category(self):
        return self.c


def setup(c):
    b = UTF8InputTextBuilder(c['text'], G(c['cats']))
    t, m = c['text'], list(range(len(c['text']) + 1))
    for (x, y, s) in c['ops']:
        if x < y <= len(t):
            b.replace(x, y, s)
            t, m = ref_apply(t, m, [(x, y, s)])
    return b.build(), RefText(t, m, lambda cp: set(c['cats'].get(chr(cp), ['DEFAULT'])))


def gen_case(rng, hi=12):
    alph = [rchar(rng) for _ in range(rng.randint(1, 5))]
    t = rtext(rng, 0 if rng.random() < .05 else 1, hi, alph)
    cs = rng.sample(CATS, 4)
    if rng.random() < .6:
        cs += ['ALPHA', 'GREEK', 'CYRILLIC']
    cats = {a: sorted(set(rng.choice(cs) for _ in range(rng.choice([1, 1, 2, 3])))) for a in alph}
    ops = []
    if rng.random() < .4 and t:
        for _ in range(rng.randint(1, 2)):
            x = rng.randrange(len(t))
            ops.append([x, x + rng.randint(1, 2), rtext(rng, 1, 3, alph)])
    return {'text': t, 'cats': cats, 'ops': ops}


class Harness:
    rule = 'random text over a few characters of 1-4 bytes with random category sets, with and without replacements; non-trivial: not empty'

    def gen(self, rng, n):
        return gen_case(rng)

    def key(self, c):
        return json.dumps(c) if c['text'] else None

    def run(self, c):
        i, r = setup(c)
        b = r.b
        N = len(b)
        if i.get_byte_text() != b or i.get_text() != r.t or i.get_original_text() != c['text']:
            return 'text, bytes or original text differ'
        for p in range(N + 1):
            if i.get_offset_text_length(p) != r.ch[p]:
                return 'byte %d resolves to character %r, expected %d' % (p, i.get_offset_text_length(p), r.ch[p])
            if i.get_original_index(p) != r.m[r.ch[p]]:
                return 'byte %d resolves to original offset %r, expected %d' % (p, i.get_original_index(p), r.m[r.ch[p]])
        for p in range(N):
            if {x.name for x in i.get_char_category_types(p)} != r.cats[r.ch[p]]:
                return 'categories of byte %d' % p
            if i.get_char_category_continuous_length(p) != r.cont_len(p):
                return 'continuous length at byte %d is %r, expected %d' % (p, i.get_char_category_continuous_length(p), r.cont_len(p))
            if bool(i.can_bow(p)) != r.can_bow(p):
                return 'can_bow(%d) is %r' % (p, i.can_bow(p))
            if i.get_word_candidate_length(p) != r.next_bow(p) - p:
                return 'word candidate length at byte %d is %r, expected %d' % (p, i.get_word_candidate_length(p), r.next_bow(p) - p)
        st = r.start
        for x in range(len(r.t)):
            for n in range(0, len(r.t) - x + 2):
                e = st[min(x + n, len(r.t))] - st[x]
                if i.get_code_points_offset_length(st[x], n) != e:
                    return 'length of %d characters from byte %d is %r, expected %d' % (n, st[x], i.get_code_points_offset_length(st[x], n), e)
        for p in range(N + 1):
            for q in range(p, N + 1):
                if i.get_substring(p, q) != r.t[r.ch[p]:r.ch[q]]:
                    return 'substring(%d,%d)' % (p, q)
                if i.code_point_count(p, q) != r.ch[q] - r.ch[p]:
                    return 'code point count'
        for x in range(len(r.t)):
            for y in range(x + 1, len(r.t) + 1):
                g = {k.name for k in i.get_char_category_types(st[x], st[y])}
                e = set.intersection(*r.cats[x:y]) if st[y] - st[x] <= r.cont_len(st[x]) else set()
                if g != e:
                    return 'categories of [%d,%d) are %r, expected %r' % (st[x], st[y], g, e)
        for p, q in [(-1, 0), (0, N + 1), (1, 0)]:
            try:
                i.get_substring(p, q)
                return 'substring(%d,%d) accepted' % (p, q)
            except IndexError:
                pass
