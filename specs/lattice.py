"""The lattice: every node has the least total cost over all connections from its left (C07)."""
from pyvc.api import *
from specs.split import *
from specs.grammar import *

LT = 'sudachipy.lattice.Lattice.'
R.consts.update(INHIBITED=0x7fff, BIG=4294967296, MAXINT=2147483647, LLONG_MAX=9223372036854775807)
globals().update(R.consts)


@spec
def ids_in(n: 'LatticeNode', v: 'View'):
    """the connection ids of the node are those of a row and a column of the matrix"""
    return 0 <= n.left_id and n.left_id < v.rows and 0 <= n.right_id and n.right_id < v.cols


@spec
def usable(l: 'LatticeNode', r: 'LatticeNode', v: 'View'):
    """l is connected and may be followed by r"""
    return l.is_connected_to_bos and mcost(v, l.right_id, r.left_id) != INHIBITED


@spec
def step(l: 'LatticeNode', r: 'LatticeNode', v: 'View') -> 'int':
    """total cost of r after l"""
    return l.total_cost + mcost(v, l.right_id, r.left_id) + r.cost


@spec
def best(r: 'LatticeNode', ls: 'seq[LatticeNode]', v: 'View'):
    """r is connected exactly if a node of ls may precede it; then its cost is the least over these, attained by its best previous node (number g_best of ls)"""
    return (implies(not r.is_connected_to_bos, r.best_previous_node is None and all(not usable(ls[j], r, v) for j in range(0, len(ls))))
            and implies(r.is_connected_to_bos, 0 <= r.g_best and r.g_best < len(ls) and r.best_previous_node is ls[r.g_best] and usable(ls[r.g_best], r, v) and r.total_cost == step(ls[r.g_best], r, v))
            and implies(r.is_connected_to_bos, all(implies(usable(ls[j], r, v), r.total_cost <= step(ls[j], r, v)) for j in range(0, len(ls)))))


@spec
def small(n: 'LatticeNode', e: 'int'):
    return implies(n.is_connected_to_bos, 0 - BIG * e <= n.total_cost and n.total_cost <= BIG * e)


contract(LT + 'connect_node', args={'r_node': 'LatticeNode'}, lets={'_e': 'seqof(self.end_lists[r_node.begin])'},
         requires=['mat_wf(self.connect_costs)', '0 <= r_node.begin', 'r_node.begin < len(self.end_lists)', 'r_node.best_previous_node is None', 'ids_in(r_node, self.connect_costs)',
                   'all(ids_in(_e[j], self.connect_costs) for j in range(0, len(_e)))', 'all(small(_e[j], r_node.begin) for j in range(0, len(_e)))', 'all(_e[j] is not r_node for j in range(0, len(_e)))',
                   'r_node.begin <= MAXINT', '0 - MAXINT - 1 <= r_node.cost', 'r_node.cost <= MAXINT'],
         modifies=['r_node.total_cost', 'r_node.best_previous_node', 'r_node.is_connected_to_bos', 'r_node.g_best'],
         hints={'after:r_node.best_previous_node = l_node': ['r_node.g_best = _k']},
         inv={0: ['implies(r_node.best_previous_node is None, r_node.total_cost == LLONG_MAX and all(not usable(_e[j], r_node, self.connect_costs) for j in range(0, _k)))',
                  'implies(r_node.best_previous_node is not None, 0 <= r_node.g_best and r_node.g_best < _k and r_node.best_previous_node is _e[r_node.g_best] and usable(_e[r_node.g_best], r_node, self.connect_costs) and r_node.total_cost + r_node.cost == step(_e[r_node.g_best], r_node, self.connect_costs))',
                  'implies(r_node.best_previous_node is not None, all(implies(usable(_e[j], r_node, self.connect_costs), r_node.total_cost + r_node.cost <= step(_e[j], r_node, self.connect_costs)) for j in range(0, _k)))']},
         ensures=['best(r_node, _e, self.connect_costs)', 'small(r_node, r_node.begin + 1)'])


# ---------------------------------------------------------------- the whole lattice
@spec(opaque=True)
def seen(e: 'int', j: 'int') -> 'bool':
    """always true; its mention makes the solver look at node j that ends at e"""
    return True


@spec
def nwf(l: 'Lattice', n: 'LatticeNode', e: 'int'):
    return n.end == e and 0 <= n.begin and n.begin < e and ids_in(n, l.connect_costs) and small(n, e)


@spec
def apart(l: 'Lattice'):
    """no two positions share a list"""
    return all(l.end_lists[x] is not l.end_lists[y] for x in range(0, len(l.end_lists)) for y in range(0, x))


@spec
def shape(l: 'Lattice'):
    return (mat_wf(l.connect_costs) and l.connect_costs.rows <= 32767 and l.connect_costs.cols <= 32767 and 0 <= l.size and l.size <= l.capacity and l.capacity < MAXINT and l.capacity + 1 <= len(l.end_lists) and apart(l)
            and len(l.eos_params) == 3 and 0 <= l.eos_params[0] and l.eos_params[0] < l.connect_costs.rows and 0 <= l.eos_params[1] and l.eos_params[1] < l.connect_costs.cols
            and 0 - MAXINT - 1 <= l.eos_params[2] and l.eos_params[2] <= MAXINT)


@spec
def params_ok(ps: 'list[int]', v: 'View'):
    return len(ps) == 3 and 0 <= ps[0] and ps[0] < v.rows and 0 <= ps[1] and ps[1] < v.cols and 0 - MAXINT - 1 <= ps[2] and ps[2] <= MAXINT


@spec
def bos_wf(l: 'Lattice'):
    return (len(l.end_lists[0]) == 1 and l.end_lists[0][0].is_connected_to_bos and l.end_lists[0][0].total_cost == 0 and ids_in(l.end_lists[0][0], l.connect_costs)
            and l.end_lists[0][0].end == 0 and l.end_lists[0][0].begin == 0)


@spec
def lat_wf(l: 'Lattice'):
    return (shape(l) and bos_wf(l) and all(nwf(l, l.end_lists[e][j], e) for e in range(1, l.size + 1) for j in range(0, len(l.end_lists[e])))
            and all(implies(trig(seen(e, j)), best(l.end_lists[e][j], seqof(l.end_lists[l.end_lists[e][j].begin]), l.connect_costs)) for e in range(1, l.size + 1) for j in range(0, len(l.end_lists[e])))
            and all(len(l.end_lists[e]) == 0 for e in range(l.size + 1, len(l.end_lists))))


@spec
def not_in(l: 'Lattice', n: 'LatticeNode'):
    """n is not a node of the lattice"""
    return all(l.end_lists[e][j] is not n for e in range(0, l.size + 1) for j in range(0, len(l.end_lists[e]))) and l.eos_node is not n


@spec
def front(l: 'Lattice', p: 'int'):
    """no node begins at p or after"""
    return all(l.end_lists[e][j].begin < p for e in range(1, l.size + 1) for j in range(0, len(l.end_lists[e])))


@spec
def held(l: 'Lattice', q: 'seq[LatticeNode]'):
    """the nodes of q are nodes of the lattice (node k is number g_at of those ending where it ends)"""
    return all(1 <= q[k].end and q[k].end <= l.size and 0 <= q[k].g_at and q[k].g_at < len(l.end_lists[q[k].end]) and l.end_lists[q[k].end][q[k].g_at] is q[k] for k in range(0, len(q)))


@spec(opaque=True)
def listed(e: 'int', j: 'int') -> 'bool':
    """always true; its mention makes the solver look at the record of node j that ends at e"""
    return True


@spec
def noted(q: 'seq[LatticeNode]', n: 'LatticeNode'):
    return 0 <= n.g_no and n.g_no < len(q) and q[n.g_no] is n


@spec
def logged(l: 'Lattice'):
    """the nodes of the lattice are exactly those put there: the dictionary words g_words and the OOV words g_oov, in the order of their insertion"""
    return (held(l, l.g_words) and held(l, l.g_oov) and all(not l.g_words[k]._is_oov for k in range(0, len(l.g_words))) and all(l.g_oov[k]._is_oov for k in range(0, len(l.g_oov)))
            and all(implies(trig(listed(e, j)), noted(l.g_oov, l.end_lists[e][j]) if l.end_lists[e][j]._is_oov else noted(l.g_words, l.end_lists[e][j])) for e in range(1, l.size + 1) for j in range(0, len(l.end_lists[e]))))


NODEF = ['total_cost', 'best_previous_node', 'is_connected_to_bos', 'g_best', 'begin', 'end']
contract(LT + 'insert', args={'begin': 'int', 'end': 'int', 'node': 'LatticeNode'},
         requires=['not_in(self, node)', 'lat_wf(self)', 'logged(self)', '0 <= begin', 'begin < end', 'end <= self.size', 'node.best_previous_node is None', 'ids_in(node, self.connect_costs)', 'front(self, begin + 1)',
                   '0 - MAXINT - 1 <= node.cost', 'node.cost <= MAXINT'],
         lets={'_l': 'self.end_lists', '_q': 'seqof(self.end_lists[end])'},
         modifies=['node.' + f for f in NODEF + ['g_at', 'g_no']] + ['self.end_lists[end][]', 'self.g_words', 'self.g_oov'],
         hints={'exit': ['node.g_at = len(_q)', 'if node._is_oov:\n  node.g_no = len(self.g_oov)\n  self.g_oov = self.g_oov + [node]\nelse:\n  node.g_no = len(self.g_words)\n  self.g_words = self.g_words + [node]', 'assert seen(end, len(self.end_lists[end]) - 1)']},
         ensures=['lat_wf(self)', 'seqof(self.end_lists[end]) == _q + [node]', 'node.begin == begin', 'node.end == end', 'front(self, begin + 1)', 'logged(self)',
                  'implies(node._is_oov, self.g_words == old(self.g_words) and self.g_oov == old(self.g_oov) + [node])', 'implies(not node._is_oov, self.g_words == old(self.g_words) + [node] and self.g_oov == old(self.g_oov))'])
contract(LT + 'clear', requires=['shape(self)'], modifies=['self.size', 'self.eos_node', 'list[LatticeNode]'],
         inv={0: ['all(len(self.end_lists[e]) == 0 for e in range(1, _k + 1))', 'all(implies(e == 0 or e > _k, seqof(self.end_lists[e]) == old(seqof(self.end_lists[e]))) for e in range(0, len(self.end_lists)))']},
         ensures=['self.size == 0', 'self.eos_node is None', 'all(len(self.end_lists[e]) == 0 for e in range(1, old(self.size) + 1))',
                  'all(implies(e == 0 or e > old(self.size), seqof(self.end_lists[e]) == old(seqof(self.end_lists[e]))) for e in range(0, len(self.end_lists)))'])
contract(LT + 'resize', args={'size': 'int'}, requires=['shape(self)', 'bos_wf(self)', 'all(len(self.end_lists[e]) == 0 for e in range(self.size + 1, len(self.end_lists)))', '0 <= size', 'size < MAXINT'],
         modifies=['self.size', 'self.capacity', 'self.eos_node', 'self.end_lists[]', 'list[LatticeNode]', 'self.g_words', 'self.g_oov', 'self.g_ws', 'self.g_os'],
         hints={'exit': ['self.g_words = self.g_words[0:0]', 'self.g_oov = self.g_oov[0:0]', 'self.g_ws = [0]', 'self.g_os = [0]']},
         ensures=['lat_wf(self)', 'self.size == size', 'all(len(self.end_lists[e]) == 0 for e in range(1, size + 1))', 'front(self, 0)',
                  'fresh(self.eos_node)', 'self.eos_node.begin == size', 'self.eos_node.end == size', 'self.eos_node.best_previous_node is None', 'ids_in(self.eos_node, self.connect_costs)',
                  'self.eos_node.cost == self.eos_params[2]', 'eos_wf(self)', 'logged(self)', 'len(self.g_words) == 0', 'len(self.g_oov) == 0', 'self.g_ws == [0]', 'self.g_os == [0]'])

contract(LT + 'expand', args={'new_size': 'int'}, requires=['apart(self)', 'self.size <= new_size', 'new_size <= MAXINT'],
         locals={'c0': 'list[LatticeNode]'}, modifies=['self.capacity', 'self.end_lists[]'],
         lets={'_o': 'seqof(self.end_lists)'},
         inv={'c0': ['fresh(_res)', 'len(_res) == _k', 'all(len(_res[x]) == 0 and fresh(_res[x]) for x in range(0, _k))', 'all(_res[x] is not _res[y] for x in range(0, _k) for y in range(0, x))']},
         ensures=['self.capacity == new_size', 'apart(self)', 'len(self.end_lists) == len(_o) + new_size - self.size', 'seqof(self.end_lists)[:len(_o)] == _o',
                  'all(len(self.end_lists[x]) == 0 for x in range(len(_o), len(self.end_lists)))'])


@spec
def eos_wf(l: 'Lattice'):
    """the end node follows the whole text and is not a node of the lattice"""
    return (l.eos_node is not None and l.eos_node.begin == l.size and l.eos_node.end == l.size and ids_in(l.eos_node, l.connect_costs) and 0 - MAXINT - 1 <= l.eos_node.cost and l.eos_node.cost <= MAXINT
            and all(l.end_lists[e][j] is not l.eos_node for e in range(0, l.size + 1) for j in range(0, len(l.end_lists[e]))))


@spec
def eos_best(l: 'Lattice'):
    return best(l.eos_node, seqof(l.end_lists[l.size]), l.connect_costs)


contract(LT + 'connect_eos_node', requires=['lat_wf(self)', 'eos_wf(self)', 'self.eos_node.best_previous_node is None'],
         modifies=['self.eos_node.' + f for f in NODEF[:4]], ensures=['lat_wf(self)', 'eos_wf(self)', 'eos_best(self)'])


@spec
def tiles(p: 'seq[LatticeNode]', n: 'int'):
    """the nodes cover 0 to n without gap or overlap"""
    return (implies(len(p) == 0, n == 0) and implies(len(p) > 0, p[0].begin == 0 and p[len(p) - 1].end == n) and all(p[k].begin < p[k].end for k in range(0, len(p)))
            and all(p[k].end == p[k + 1].begin for k in range(0, len(p) - 1)))


@spec
def bos(l: 'Lattice') -> 'LatticeNode':
    return l.end_lists[0][0]


@spec
def prevn(l: 'Lattice', p: 'seq[LatticeNode]', k: 'int') -> 'LatticeNode':
    """the node before node k of a path"""
    return bos(l) if k <= 0 else p[k - 1]


@spec
def follows(l: 'Lattice', p: 'seq[LatticeNode]', k: 'int'):
    return usable(prevn(l, p, k), trig(p[k]), l.connect_costs) and p[k].total_cost == step(prevn(l, p, k), p[k], l.connect_costs)


@spec(rec=True, reads=['Lattice.end_lists', 'Lattice.connect_costs', 'list[list[LatticeNode]]', 'list[LatticeNode]', 'LatticeNode.left_id', 'LatticeNode.right_id', 'LatticeNode.cost', 'View.src', 'View.base', 'View.cols', 'Mmap.data'])
def pcost(l: 'Lattice', p: 'seq[LatticeNode]', k: 'int') -> 'int':
    """cost of the first k nodes of a path and of the connections between them"""
    return 0 if k <= 0 else pcost(l, p, k - 1) + mcost(l.connect_costs, prevn(l, p, k - 1).right_id, p[k - 1].left_id) + p[k - 1].cost


@lemma(requires=['0 <= k', 'k <= len(p)', 'len(l.end_lists) > 0', 'len(l.end_lists[0]) > 0', 'bos(l).total_cost == 0', 'all(follows(l, p, i) for i in range(0, len(p)))'], ensures=['pcost(l, p, k) == prevn(l, p, k).total_cost'], dec='k')
def pcost_total(l: 'Lattice', p: 'seq[LatticeNode]', k: 'int'):
    if k > 0:
        assert follows(l, p, k - 1)
        pcost_total(l, p, k - 1)


contract(LT + 'get_best_path', returns='list[LatticeNode]', requires=['lat_wf(self)', 'eos_wf(self)', 'eos_best(self)'], raises={'AttributeError': 'not self.eos_node.is_connected_to_bos'},
         locals={'result': 'list[LatticeNode]', 'node': 'LatticeNode'},
         hints={'loop0.before': ['_e = self.size', '_j = self.eos_node.g_best'],
                'loop0.body': ['assert seen(_e, _j)', '_b = node.begin', '_g = node.g_best'],
                'loop0.end': ['_e = _b', '_j = _g']},
         inv={0: ['fresh(result)', '0 <= _e', '_e <= self.size', '0 <= _j', '_j < len(self.end_lists[_e])', 'node is self.end_lists[_e][_j]', 'node.is_connected_to_bos', 'node.end == _e',
                  'implies(len(result) == 0, node is self.eos_node.best_previous_node and _e == self.size)',
                  'implies(len(result) > 0, result[0] is self.eos_node.best_previous_node and result[0].end == self.size)',
                  'implies(len(result) > 0, result[len(result) - 1].begin == _e and usable(node, result[len(result) - 1], self.connect_costs) and result[len(result) - 1].total_cost == step(node, result[len(result) - 1], self.connect_costs))',
                  'all(result[k].begin < result[k].end for k in range(0, len(result)))',
                  'all(result[k].begin == result[k + 1].end for k in range(0, len(result) - 1))',
                  'all(usable(result[k + 1], trig(result[k]), self.connect_costs) and result[k].total_cost == step(result[k + 1], result[k], self.connect_costs) for k in range(0, len(result) - 1))']},
         ensures=['fresh(result)', 'tiles(seqof(result), self.size)', 'all(follows(self, seqof(result), k) for k in range(0, len(result)))',
                  'prevn(self, seqof(result), len(result)) is self.eos_node.best_previous_node',
                  'self.eos_node.total_cost == pcost(self, seqof(result), len(result)) + mcost(self.connect_costs, prevn(self, seqof(result), len(result)).right_id, self.eos_node.left_id) + self.eos_node.cost'])


@spec
def permitted(l: 'Lattice', p: 'seq[LatticeNode]'):
    return all(mcost(l.connect_costs, prevn(l, p, k).right_id, trig(p[k]).left_id) != INHIBITED for k in range(0, len(p)))


@lemma(requires=['permitted(l, p)', '0 <= k', 'k < len(p)'], ensures=['mcost(l.connect_costs, prevn(l, p, k).right_id, trig(p[k]).left_id) != INHIBITED'])
def chain_perm(l: 'Lattice', p: 'seq[LatticeNode]', k: 'int'):
    assert p[k] is p[k]


@spec
def chain(l: 'Lattice', p: 'seq[LatticeNode]', js: 'seq[int]', n: 'int'):
    """p is a sequence of nodes of the lattice (node k is number js[k] of those ending there) that covers 0 to n and whose connections are all permitted"""
    return (tiles(p, n) and len(js) == len(p) and all(p[k].end <= l.size and 0 <= js[k] and js[k] < len(l.end_lists[p[k].end]) and p[k] is l.end_lists[p[k].end][js[k]] for k in range(0, len(p)))
            and permitted(l, p))


@lemma(requires=['lat_wf(l)', '1 <= e', 'e <= l.size', '0 <= j', 'j < len(l.end_lists[e])', 'r is l.end_lists[e][j]', '0 <= i', 'i < len(l.end_lists[r.begin])', 'q is l.end_lists[r.begin][i]', 'q.is_connected_to_bos',
                 'mcost(l.connect_costs, q.right_id, r.left_id) != INHIBITED'],
       ensures=['r.is_connected_to_bos', 'r.total_cost <= step(q, r, l.connect_costs)'])
def chain_step(l: 'Lattice', r: 'LatticeNode', e: 'int', j: 'int', q: 'LatticeNode', i: 'int'):
    assert seen(e, j)
    assert usable(l.end_lists[l.end_lists[e][j].begin][i], l.end_lists[e][j], l.connect_costs)


@lemma(requires=['lat_wf(l)', 'chain(l, p, js, n)', '0 <= k', 'k < len(p)'], ensures=['p[k] is l.end_lists[p[k].end][js[k]]', '0 < p[k].end', 'p[k].end <= l.size', '0 <= js[k]', 'js[k] < len(l.end_lists[p[k].end])'], dec='k')
def chain_in(l: 'Lattice', p: 'seq[LatticeNode]', js: 'seq[int]', n: 'int', k: 'int'):
    if k > 0:
        chain_in(l, p, js, n, k - 1)
        assert p[k - 1].end == p[k].begin


@lemma(requires=['0 <= k', 'k < len(p)', 'x is prevn(l, p, k)', 'c <= pcost(l, p, k)', 'x.total_cost <= c', 'p[k].total_cost <= step(x, p[k], l.connect_costs)'], ensures=['prevn(l, p, k + 1).total_cost <= pcost(l, p, k + 1)'])
def chain_cost(l: 'Lattice', p: 'seq[LatticeNode]', k: 'int', x: 'LatticeNode', c: 'int'):
    assert prevn(l, p, k + 1) is p[k]
    assert pcost(l, p, k + 1) == pcost(l, p, k) + mcost(l.connect_costs, x.right_id, p[k].left_id) + p[k].cost


@lemma(requires=['lat_wf(l)', 'chain(l, p, js, n)', '0 <= k', 'k <= len(p)'], ensures=['prevn(l, p, k).is_connected_to_bos', 'prevn(l, p, k).total_cost <= pcost(l, p, k)'], dec='k')
def chain_min(l: 'Lattice', p: 'seq[LatticeNode]', js: 'seq[int]', n: 'int', k: 'int'):
    if k > 0:
        chain_min(l, p, js, n, k - 1)
        chain_in(l, p, js, n, k - 1)
        chain_perm(l, p, k - 1)
        if k == 1:
            assert p[0].begin == 0
            assert prevn(l, p, k - 1) is l.end_lists[p[k - 1].begin][0]
            chain_step(l, p[k - 1], p[k - 1].end, js[k - 1], prevn(l, p, k - 1), 0)
        if k > 1:
            assert p[k - 2].end == p[k - 1].begin
            chain_in(l, p, js, n, k - 2)
            chain_step(l, p[k - 1], p[k - 1].end, js[k - 1], prevn(l, p, k - 1), js[k - 2])
        chain_cost(l, p, k - 1, prevn(l, p, k - 1), prevn(l, p, k - 1).total_cost)


@lemma(requires=['lat_wf(l)', 'eos_wf(l)', 'eos_best(l)', 'chain(l, p, js, l.size)', 'mcost(l.connect_costs, prevn(l, p, len(p)).right_id, l.eos_node.left_id) != INHIBITED'],
       ensures=['l.eos_node.is_connected_to_bos', 'l.eos_node.total_cost <= pcost(l, p, len(p)) + mcost(l.connect_costs, prevn(l, p, len(p)).right_id, l.eos_node.left_id) + l.eos_node.cost'])
def eos_min(l: 'Lattice', p: 'seq[LatticeNode]', js: 'seq[int]'):
    """the end node costs no more than any sequence of nodes that covers the text with permitted connections"""
    chain_min(l, p, js, l.size, len(p))
    if len(p) == 0:
        assert l.size == 0
        assert usable(l.end_lists[l.size][0], l.eos_node, l.connect_costs)
    if len(p) > 0:
        chain_in(l, p, js, l.size, len(p) - 1)
        assert prevn(l, p, len(p)) is l.end_lists[p[len(p) - 1].end][js[len(p) - 1]]
        assert usable(l.end_lists[p[len(p) - 1].end][js[len(p) - 1]], l.eos_node, l.connect_costs)


contract(LT + '__init__', args={'grammar': 'Grammar'}, modifies=['self.' + x for x in ('size', 'capacity', 'end_lists', 'grammar', 'eos_params', 'connect_costs', 'eos_node')],
         requires=['mat_wf(grammar._matrix_view)', 'grammar._matrix_view.rows <= 32767', 'grammar._matrix_view.cols <= 32767', 'params_ok(grammar._BOS_PARAMETER, grammar._matrix_view)', 'params_ok(grammar._EOS_PARAMETER, grammar._matrix_view)'],
         ensures=['shape(self)', 'bos_wf(self)', 'self.size == 0', 'len(self.end_lists) == 1', 'self.connect_costs is grammar._matrix_view', 'self.eos_params is grammar._EOS_PARAMETER'])
contract(LT + 'get_nodes_with_end', args={'end': 'int'}, returns='list[LatticeNode]', requires=['0 <= end', 'end < len(self.end_lists)'], ensures=['result is self.end_lists[end]'])
contract(LT + 'has_previous_node', args={'index': 'int'}, returns='bool', requires=['0 <= index', 'index < len(self.end_lists)'], ensures=['result == (len(self.end_lists[index]) > 0)'])


@spec(rec=True, reads=['LatticeNode.begin'])
def begs(q: 'seq[LatticeNode]', b: 'int', k: 'int') -> 'seq[LatticeNode]':
    """those of the first k nodes that begin at b"""
    return [] if k <= 0 else begs(q, b, k - 1) + ([q[k - 1]] if q[k - 1].begin == b else [])


contract(LT + 'get_nodes', args={'begin': 'int', 'end': 'int'}, returns='list[LatticeNode]', requires=['0 <= end', 'end < len(self.end_lists)'],
         locals={'c0': 'LatticeNode'}, lets={'_q': 'seqof(self.end_lists[end])'}, inv={'c0': ['fresh(_res)', 'seqof(_res) == begs(_q, begin, _k)']},
         ensures=['fresh(result)', 'seqof(result) == begs(_q, begin, len(_q))'])
contract(LT + 'get_minimum_node', args={'begin': 'int', 'end': 'int'}, returns='LatticeNode?', requires=['0 <= end', 'end < len(self.end_lists)'], lets={'_q': 'begs(seqof(self.end_lists[end]), begin, len(self.end_lists[end]))'},
         inv={0: ['any(min_arg is _q[j] for j in range(0, _k + 1))', 'all(min_arg.cost <= _q[j].cost for j in range(0, _k + 1))']},
         ensures=['(result is None) == (len(_q) == 0)', 'implies(result is not None, all(result.cost <= _q[j].cost for j in range(0, len(_q))))', 'implies(result is not None, any(result is _q[j] for j in range(0, len(_q))))'])
LAT = ['pcost_total', 'chain_step', 'chain_in', 'chain_perm', 'chain_cost', 'chain_min', 'eos_min'] + [LT + x for x in ('__init__', 'connect_node', 'insert', 'clear', 'resize', 'expand', 'connect_eos_node', 'get_best_path', 'get_nodes_with_end', 'has_previous_node', 'get_nodes', 'get_minimum_node')]
prop('C07', LAT)
