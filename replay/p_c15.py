from p_c14 import *
from sudachipy.dictionarylib.userdictionarybuilder import UserDictionaryBuilder


class Harness:
    rule = 'random part-of-speech tables (string lengths around 127/128, any characters) and connection matrices (square and not, sparse, comments, costs at the 16-bit bounds, ids outside); built, loaded and compared; non-trivial: accepted'

    def gen(self, rng, n):
        pos = []
        for _ in range(rng.randint(1, 4)):
            pos.append([[rng.choice([0, 1, 2, 5, 126, 127, 128, 129, 255, 256, 300]) if rng.random() < .3 else rng.randint(1, 3), rng.choice(['a', '名', '😀', 'é', '\uffff', '*'])] for _ in range(6)])
        ls, rs = rng.randint(1, 5), rng.randint(1, 5)
        if rng.random() < .05:
            ls = 0
        costs = []
        for l in range(ls):
            for r in range(rs):
                if rng.random() < .7:
                    costs.append([l, r, rng.choice([0, 1, -1, 255, 256, 32767, -32768, 300])])
        rng.shuffle(costs)
        for _ in range(rng.choice([0, 0, 1])):
            if costs:
                x = rng.choice(costs)
                costs.append([x[0], x[1], rng.choice([77, 0])])
        if rng.random() < .06:
            costs.insert(rng.randint(0, len(costs)), rng.choice([[ls, 0, 1], [0, rs, 1], [-1, 0, 1], [0, -1, 1], [0, 0, 32768]]))
        return {'pos': pos, 'matrix': [ls, rs, costs], 'sep': rng.choice([' ', '\t', '  ']), 'junk': rng.random() < .5, 'nomatrix': rng.random() < .03}

    def shrinks(self, c):
        for i in range(len(c['pos'])):
            if len(c['pos']) > 1:
                yield dict(c, pos=c['pos'][:i] + c['pos'][i + 1:])
        ls, rs, cs = c['matrix']
        for i in range(len(cs)):
            yield dict(c, matrix=[ls, rs, cs[:i] + cs[i + 1:]])

    def valid(self, c):
        ls, rs, costs = c['matrix']
        return all(0 <= l < ls and 0 <= r < rs and -32768 <= x <= 32767 for l, r, x in costs)

    def key(self, c):
        return json.dumps(c) if self.valid(c) else None

    def run(self, c):
        d = tempfile.mkdtemp(prefix='verif-c15-')
        try:
            ls, rs, costs = c['matrix']
            s = c['sep']
            mt = '%d%s%d\n' % (ls, s, rs)
            for i, (l, r, x) in enumerate(costs):
                if c['junk']:
                    mt += ['# comment\n', '\n', '   \n', '0 0\n'][i % 4]
                mt += '%d%s%d%s%d\n' % (l, s, r, s, x)
            pos = [[mk(x) for x in p] for p in c['pos']]
            rows = [row('w%d' % i, 0, 0, 0, p) for i, p in enumerate(pos)] + [row('again', 0, 0, 0, pos[0])]
            try:
                b = build(rows, None if c['nomatrix'] else mt, d) if not c['nomatrix'] else self.nomatrix(rows, d)
            except Exception:
                if not self.valid(c) and not c['nomatrix']:
                    return None
                raise
            if not self.valid(c) and not c['nomatrix']:
                return 'a matrix with ids or costs outside its bounds is accepted'
            g = b.grammar
            table = []
            for p in pos:
                if p not in table:
                    table.append(p)
            if g.get_part_of_speech_size() != len(table):
                return 'the table has %d parts of speech, expected %d' % (g.get_part_of_speech_size(), len(table))
            for i, p in enumerate(table):
                if list(g.get_part_of_speech_string(i)) != p or g.get_part_of_speech_id(p) != i:
                    return 'part of speech %d is %r, expected %r' % (i, g.get_part_of_speech_string(i), p)
            for i, p in enumerate(pos + [pos[0]]):
                if b.lexicon.get_word_info(i).pos_id != table.index(p):
                    return 'the part of speech id of word %d' % i
            if c['nomatrix']:
                return None
            ct = {(l, r): x for l, r, x in costs}
            for l in range(ls):
                for r in range(rs):
                    if g.get_connect_cost(l, r) != ct.get((l, r), 0):
                        return 'cost(%d,%d) is %d, expected %d' % (l, r, g.get_connect_cost(l, r), ct.get((l, r), 0))
        finally:
            shutil.rmtree(d)

    def nomatrix(self, rows, d):
        p = os.path.join(d, 'x.dic')
        with open(os.path.join(d, 'x.csv'), 'w', encoding='utf-8', newline='') as f:
            f.write(csv_text(rows))
        with open(p, 'wb') as f:
            f.write(DictionaryHeader(SYSTEM_DICT_VERSION_2, 1, 'x').to_bytes())
            DictionaryBuilder(logger=Log()).build([os.path.join(d, 'x.csv')], None, f)
        return BinaryDictionary.from_system_dictionary(p)
