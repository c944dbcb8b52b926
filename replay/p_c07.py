from worldh import *
from array import array
from sudachipy.lattice import Lattice
from sudachipy.latticenode import LatticeNode


class G:
    def __init__(self, n, costs, bos, eos):
        self._matrix_view = memoryview(array('h', costs).tobytes()).cast('h', shape=[n, n])
        self.b, self.e = bos, eos

    def get_bos_parameter(self):
        return self.b

    def get_eos_parameter(self):
        return self.e


class Inp:
    def __init__(self, n):
        self.b = b'a' * n

    def get_byte_text(self):
        return self.b

    def can_bow(self, i):
        return True

    def get_char_category_types(self, i, e=None):
        return set()


class Lex:
    lexicons = []

    def lookup(self, t, o):
        return iter(())


class Prov:
    def __init__(self, by):
        self.by = by

    def get_oov(self, i, p, has):
        return self.by.get(p, [])


class Harness(WorldHarness):
    rule = 'random lattices (nodes by increasing begin, random and inhibited connection costs, extreme word costs) and random dictionaries with texts; the returned path is compared with a dynamic programme; non-trivial: three or more nodes'
    extreme = True
    texts = 4
    fixed = [{'chain': [2000, 2 ** 31 - 1, 32766]}, {'chain': [2000, -2 ** 31, -32768]}, {'chain': [5, 2 ** 31 - 1, 30000]}, {'chain': [5, -2 ** 31, -30000]}]

    def gen(self, rng, n):
        if rng.random() < .1:
            return WorldHarness.gen(self, rng, n)
        k = rng.randint(1, 4)
        costs = [rng.choice([0, 1, -1, 5, -7, 100, 32766, -32768, 32767, 32767]) for _ in range(k * k)]
        size = rng.randint(0, 6)
        nodes = []
        for b in range(size):
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                nodes.append([b, rng.randint(b + 1, size), rng.randrange(k), rng.randrange(k), rng.choice([0, 1, -1, 3, -10, 32767, -32768, 2 ** 31 - 1, -2 ** 31])])
        return {'k': k, 'costs': costs, 'size': size, 'nodes': nodes, 'bos': [0, rng.randrange(k), 0], 'eos': [rng.randrange(k), 0, rng.choice([0, 0, 9])],
                'before': rng.random() < .3}

    def key(self, c):
        return json.dumps(c) if len(c.get('nodes', 'xxx')) > 2 else None

    def shrinks(self, c):
        if 'nodes' in c:
            for i in range(len(c['nodes'])):
                yield dict(c, nodes=c['nodes'][:i] + c['nodes'][i + 1:])

    def run(self, c):
        if 'world' in c:
            return WorldHarness.run(self, c)
        if 'chain' in c:
            n, a, b = c['chain']
            c = {'k': 1, 'costs': [b if -32768 <= b < 32767 else 0], 'size': n, 'nodes': [[i, i + 1, 0, 0, a] for i in range(n)] + [[0, n, 0, 0, 2 ** 31 - 1]], 'bos': [0, 0, 0], 'eos': [0, 0, 0]}
        return self.lattice(c)

    def lattice(self, c):
        k = c['k']
        t = Tokenizer(G(k, c['costs'], c['bos'], c['eos']), Lex(), [], [], [])
        if c.get('before'):
            r = self.one(t, dict(c, size=2, nodes=[[0, 1, 0, 0, -100], [1, 2, 0, 0, -100], [0, 2, 0, 0, 5]]))
            if r:
                return r
        return self.one(t, c)

    def one(self, t, c):
        k, size = c['k'], c['size']
        by, objs = {}, []
        for (b, e, l, r, w) in c['nodes']:
            n = LatticeNode()
            n.set_parameter(l, r, w)
            n.set_range(b, e)
            objs.append(n)
            by.setdefault(b, []).append(n)
        ends = {0: [(0, c['bos'][1])]}         # end -> [(total, right id)]

        def best(left, p):
            m = None
            for t, r in ends.get(p, []):
                x = c['costs'][left * k + r]
                if t is not None and x != 0x7fff and (m is None or t + x < m):
                    m = t + x
            return m
        expect = None
        for p in range(size):
            if p not in ends:
                continue
            if p not in by:
                expect = 'error'
                break
            for (b, e, l, r, w) in [x for x in c['nodes'] if x[0] == p]:
                m = best(l, b)
                ends.setdefault(e, []).append((None if m is None else m + w, r))
        t._oov_provider_plugins = [Prov(by)]
        t.default_oov_provider = t._oov_provider_plugins[0]
        try:
            t._build_lattice(Inp(size))
        except RuntimeError:
            return None if expect else 'an error although every reachable position has a candidate'
        if expect:
            return 'no error although a reachable position has no candidate'
        m = best(c['eos'][0], size)
        try:
            p = t._lattice.get_best_path()
        except AttributeError:
            return None if m is None else 'no path, but the minimum is %d' % m
        finally:
            t._lattice.clear()
        if m is None:
            return 'a path although no chain reaches the end'
        at, total, right = 0, 0, c['bos'][1]
        ids = {id(x): i for i, x in enumerate(objs)}
        for n in p:
            if n.get_begin() != at:
                return 'the path is not contiguous at %d' % at
            b, e, l, r, w = c['nodes'][ids[id(n)]]
            if (b, e, l, r, w) != (n.get_begin(), n.get_end(), n.get_left_id(), n.get_right_id(), n.get_path_cost()):
                return 'a node changed'
            x = c['costs'][l * c['k'] + right]
            if x == 0x7fff:
                return 'an inhibited connection is used'
            total += x + w
            at, right = e, r
        if at != c['size']:
            return 'the path ends at %d' % at
        x = c['costs'][c['eos'][0] * c['k'] + right]
        if x == 0x7fff:
            return 'an inhibited connection to the end is used'
        if total + x != m:
            return 'the path costs %d, the minimum is %d' % (total + x, m)

    def check(self, W, w, text):
        rt = rt_of(w, text)
        t = W.dict.create()
        t._path_rewrite_plugins = []
        try:
            ends, m = ref_lattice(w, rt)
        except LookupError:
            return None
        try:
            p = t.tokenize(text).path
        except AttributeError as e:
            return None if m is None else 'no path, but the minimum is %d: %s' % (m, e)
        if m is None:
            return 'a path although no chain reaches the end'
        ct = cost_table(w)
        right, total, at = 0, 0, 0
        for n in p:
            if n.get_begin() != at:
                return 'not contiguous'
            at = n.get_end()
            x = ct.get((right, n.get_left_id()), 0)
            if x == 0x7fff:
                return 'an inhibited connection is used'
            total += x + n.get_path_cost()
            right = n.get_right_id()
        if at != len(rt.b):
            return 'the path ends at %d' % at
        total += ct.get((right, 0), 0)
        if ct.get((right, 0), 0) == 0x7fff:
            return 'an inhibited connection to the end is used'
        if total != m:
            return 'the path costs %d, the minimum is %d' % (total, m)
