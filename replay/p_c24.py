from world import *
from sudachipy.dictionary import Dictionary
from sudachipy.dictionarylib.binarydictionary import BinaryDictionary


class Harness:
    rule = 'random worlds with 1 to 3 user dictionaries in which some words have the automatic cost; the expected cost is computed from an analysis with the dictionaries loaded before; non-trivial: every world with an automatic cost'
    limit = 60

    def gen(self, rng, n):
        w = gen_world(rng, users=rng.choice([1, 1, 2, 3]), extreme=rng.random() < .5)
        for u in w['users']:
            for r in u:
                if rng.random() < .5:
                    r[3] = '-32768'
                elif rng.random() < .2:
                    r[3] = rng.choice(['-32767', '32767'])
                if rng.random() < .3:
                    r[4] = gen_text(rng, w, 4)[:rng.choice([2, 8])] or 'a'
                    if rng.random() < .2:
                        r[4] = r[4] * rng.choice([20, 120])
        if rng.random() < .2:
            w['matrix'][2] = [[l, r, rng.choice([-3000, 9000, 30000, -30000])] for l, r, _ in w['matrix'][2]]
        return {'world': w}

    def shrinks(self, c):
        w = c['world']
        for k in range(len(w['users'])):
            if len(w['users']) > 1:
                yield {'world': dict(w, users=w['users'][:k] + w['users'][k + 1:])}

    def key(self, c):
        return json.dumps(c) if any(r[3] == '-32768' for u in c['world']['users'] for r in u) else None

    def run(self, c):
        w = c['world']
        d = tempfile.mkdtemp(prefix='verif-c24-')
        try:
            sp = build_files(w, d)
            st = json.load(open(sp, encoding='utf-8'))
            def load(k):
                with open(sp, 'w', encoding='utf-8') as f:
                    json.dump(dict(st, userDict=st['userDict'][:k]), f)
                return Dictionary(config_path=sp)
            exp = {}
            for i, r in enumerate(w['sys']):
                exp[i] = (int(r[1]), int(r[2]), int(r[3]))
            for k, u in enumerate(w['users']):
                D = load(k)
                D.path_rewrite_plugins = []
                tk = D.create()
                for i, r in enumerate(u):
                    cost = int(r[3])
                    if cost == -32768:
                        try:
                            ms = tk.tokenize(r[4], None)
                        except (AttributeError, RuntimeError) as e:
                            return None
                        p = ms.path
                        cost = p[len(p) - 1].get_path_cost() - p[0].get_path_cost() - 20 * len(p)
                        cost = min(32767, max(-32768, cost))
                    exp[(k + 1) << 28 | i] = (int(r[1]), int(r[2]), cost)
            D = load(len(w['users']))
            for g, e in exp.items():
                got = (D.lexicon.get_left_id(g), D.lexicon.get_right_id(g), D.lexicon.get_cost(g))
                if got != e:
                    return 'parameters of word %d of dictionary %d are %r, expected %r' % (g & 0xfffffff, g >> 28, got, e)
        finally:
            shutil.rmtree(d, ignore_errors=True)
