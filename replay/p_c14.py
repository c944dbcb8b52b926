from world import *
from sudachipy.dictionarylib import SYSTEM_DICT_VERSION_2, USER_DICT_VERSION_3
from sudachipy.dictionarylib.binarydictionary import BinaryDictionary
from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader

LENS = [0, 1, 2, 3, 126, 127, 128, 129, 255, 256, 257, 300, 511, 512, 16383, 16384, 32766, 32767, 32768, 32769, 40000]


def u16(s):
    return len(s.encode('utf-16-le')) // 2


def mk(spec):
    """[length in UTF-16 units, characters] -> string"""
    n, al = spec
    out, k, i = [], 0, 0
    while k < n:
        c = al[i % len(al)]
        i += 1
        if k + u16(c) > n:
            c = 'z'
        out.append(c)
        k += u16(c)
    return ''.join(out)


def build(rows, matrix, d):
    p = os.path.join(d, 'x.dic')
    with open(os.path.join(d, 'x.csv'), 'w', encoding='utf-8', newline='') as f:
        f.write(csv_text(rows))
    with open(p, 'wb') as f:
        f.write(DictionaryHeader(SYSTEM_DICT_VERSION_2, 1, 'x').to_bytes())
        DictionaryBuilder(logger=Log()).build([os.path.join(d, 'x.csv')], io.StringIO(matrix), f)
    return BinaryDictionary.from_system_dictionary(p)


class Harness:
    rule = 'random lexicon sources with string and array lengths around the limits (127/128, 255/256, 32767/32768), characters of one and two UTF-16 units, dictionary form references and units; built, loaded and compared row by row, or refused; non-trivial: accepted'

    def gen(self, rng, n):
        rows = []
        cnt = rng.choice([1, 2, 3, 5, 9])
        big = rng.random() < .15
        def st(lo=0):
            ls = LENS if big and rng.random() < .4 else LENS[:14]
            return [max(lo, rng.choice(ls)) if rng.random() < .6 else rng.randint(lo, 6), rng.choice(['a', 'aé', '東', '😀', 'a😀', '\uffff', '𠮷東b'])]
        for _ in range(cnt):
            hw = [rng.randint(1, 5), rng.choice(['a', 'b', '東', '😀', 'é'])] if rng.random() < .8 else st(1)
            nums = [rng.choice([0, 1, -1, 255, 256, 32767, -32768]) for _ in range(3)]
            if rng.random() < .03:
                nums[rng.randrange(3)] = rng.choice([32768, -32769, 70000])
            arr = []
            for _ in range(4):
                k = rng.choice([0, 0, 1, 2, 3, 126, 127]) if rng.random() < .5 else 0
                if rng.random() < .01:
                    k = 128
                arr.append([rng.randrange(cnt) for _ in range(k)])
            arr[3] = [rng.choice([0, 1, 2147483647, -2147483648, 65536]) for _ in arr[3]]
            if rng.random() < .02 and arr[3]:
                arr[3][0] = 2 ** 31
            df = -1 if rng.random() < .6 else rng.randrange(cnt)
            if rng.random() < .03:
                df = cnt + rng.randint(0, 2)
            rows.append({'hw': hw, 'written': st() if rng.random() < .5 else hw, 'nums': nums, 'pos': rng.randrange(3), 'reading': st(), 'norm': st(), 'df': df, 'arr': arr})
        return {'rows': rows}

    def shrinks(self, c):
        for i in range(len(c['rows'])):
            if len(c['rows']) > 1:
                yield {'rows': c['rows'][:i] + c['rows'][i + 1:]}
        for i, r in enumerate(c['rows']):
            for k in ('written', 'reading', 'norm'):
                if r[k] != [1, 'a']:
                    yield {'rows': c['rows'][:i] + [dict(r, **{k: [1, 'a']})] + c['rows'][i + 1:]}
            if any(r['arr']):
                yield {'rows': c['rows'][:i] + [dict(r, arr=[[], [], [], []])] + c['rows'][i + 1:]}

    def source(self, c):
        rows = []
        for r in c['rows']:
            j = lambda a: '/'.join(map(str, a)) or '*'
            rows.append(row(mk(r['hw']), r['nums'][0], r['nums'][1], r['nums'][2], ['P%d' % r['pos']] + ['x', '*', '*', '*', '*'], reading=mk(r['reading']), norm=mk(r['norm']),
                            dic='*' if r['df'] < 0 else str(r['df']), typ='C', a=j(r['arr'][0]), b=j(r['arr'][1]), s=j(r['arr'][2]), syn=j(r['arr'][3]), written=mk(r['written'])))
        return rows

    def valid(self, c):
        n = len(c['rows'])
        for r in c['rows']:
            if not 0 < len(mk(r['hw']).encode('utf-8')) <= 32767 or any(u16(mk(r[k])) > 32767 for k in ('written', 'reading', 'norm')):
                return False
            if any(not -32768 <= x <= 32767 for x in r['nums']) or r['df'] >= n or any(len(a) > 127 for a in r['arr']):
                return False
            if any(not 0 <= x < n for a in r['arr'][:3] for x in a) or any(not -2 ** 31 <= x < 2 ** 31 for x in r['arr'][3]):
                return False
        return all(len(set(mk(r['hw']))) and True for r in c['rows']) and self.homographs(c)

    def homographs(self, c):
        k = {}
        for r in c['rows']:
            if r['nums'][0] != -1:
                k[mk(r['hw'])] = k.get(mk(r['hw']), 0) + 1
        return all(v < 256 for v in k.values()) and bool(k)

    def key(self, c):
        return json.dumps(c) if self.valid(c) else None

    def run(self, c):
        if not self.homographs(c):
            return None
        rows = self.source(c)
        d = tempfile.mkdtemp(prefix='verif-c14-')
        try:
            try:
                b = build(rows, '1 1\n0 0 0\n', d)
            except Exception as e:
                if not self.valid(c):
                    return None
                raise
            if not self.valid(c):
                return 'a source that the format cannot hold is accepted'
            w = {'sys': rows, 'users': []}
            order = list(range(len(rows)))
            for i in order + order[::-1]:
                r = check_wi(w, b.grammar, b.lexicon.get_word_info(i), i)
                if r:
                    return r[:2000]
                g = [b.lexicon.get_left_id(i), b.lexicon.get_right_id(i), b.lexicon.get_cost(i)]
                if g != c['rows'][i]['nums']:
                    return 'word %d has ids and cost %r, expected %r' % (i, g, c['rows'][i]['nums'])
            if b.lexicon.size() != len(rows):
                return 'size'
        finally:
            shutil.rmtree(d)
