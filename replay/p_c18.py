from world import *
from worldh import tok
from sudachipy.dictionary import Dictionary


class Harness:
    rule = 'random worlds with 0 to 15 user dictionaries, and refused ones with 16 or 17; every entry of every dictionary is read through the merged lexicon and looked up; non-trivial: two or more user dictionaries'
    limit = 120

    def gen(self, rng, n):
        k = rng.choice([1, 2, 2, 3, 3, 4, 7, 8, 9, 15]) if n % 12 != 5 else rng.choice([16, 17])
        w = gen_world(rng, users=k, plugins=False)
        w['cats'], w['rules'], w['oov'] = {}, [], w['oov'][-1:]
        return {'world': w}

    def key(self, c):
        return json.dumps(c) if len(c['world']['users']) > 1 else None

    def shrinks(self, c):
        w = c['world']
        for k in range(len(w['users'])):
            if len(w['users']) > 1:
                yield {'world': dict(w, users=w['users'][:k] + w['users'][k + 1:])}

    def run(self, c):
        w = c['world']
        if len(w['users']) > 15:
            try:
                W = World(w)
            except ValueError as e:
                return None
            W.close()
            return '%d user dictionaries are loaded' % len(w['users'])
        with World(w) as W:
            lx = W.dict.lexicon
            n = sum(len(u) for u in w['users']) + len(w['sys'])
            if lx.size() != n:
                return 'size %d, expected %d' % (lx.size(), n)
            for rnd in range(2):
                for d, i, r in entries(w):
                    gid = (d << 28) | i
                    e = check_wi(w, W.dict.grammar, lx.get_word_info(gid), gid)
                    if e:
                        return e
                    if (lx.get_left_id(gid), lx.get_right_id(gid), lx.get_cost(gid)) != (int(r[1]), int(r[2]), int(r[3])):
                        return 'parameters of word %d of dictionary %d' % (i, d)
                    if lx.get_dictionary_id(gid) != d:
                        return 'dictionary number of %x' % gid
            seen = set()
            for d, i, r in entries(w):
                t = r[0]
                if t in seen:
                    continue
                seen.add(t)
                b = t.encode('utf-8')
                exp = sorted(((dd << 28) | ii, len(rr[0].encode('utf-8'))) for dd, ii, rr in entries(w) if rr[1] != '-1' and b.startswith(rr[0].encode('utf-8')))
                got = sorted((int(a), int(e)) for a, e in lx.lookup(b, 0))
                if got != exp:
                    return 'lookup of %r: %r, expected %r' % (t, got, exp)
            tk = W.dict.create()
            for d, i, r in entries(w):
                ms = tok(W, r[0], None, tk)
                for m in ms or []:
                    gid = m.word_id()
                    if m.is_oov():
                        continue
                    if m.dictionary_id() != gid >> 28:
                        return 'dictionary number %d of word %x' % (m.dictionary_id(), gid)
                    if entry_of(w, gid)[1][5:11] != list(m.part_of_speech()):
                        return 'part of speech of %x is %r' % (gid, m.part_of_speech())
