"""Types, SMT sorts and background theories (sequences, bit operations) of the pyvc verifier."""
import z3

# ------------------------------------------------------------------ types


class T:
    __slots__ = ('k', 'a', '_s')

    def __init__(self, k, *a):
        self.k, self.a = k, a
        self._s = None

    def __str__(self):
        if self._s is None:
            if self.k == 'obj' or self.k == 'enum':
                self._s = self.a[0]
            elif self.k == 'opt':
                self._s = str(self.a[0]) + '?'
            elif self.a:
                self._s = '%s[%s]' % (self.k, ','.join(map(str, self.a)))
            else:
                self._s = self.k
        return self._s
    __repr__ = __str__

    def __eq__(self, o):
        return isinstance(o, T) and str(self) == str(o)

    def __hash__(self):
        return hash(str(self))


INT, BOOL, NONE, STR, BYTES = T('int'), T('bool'), T('none'), T('str'), T('bytes')
PY = T('py')           # static value known to the executor (class, function, module ...)


def TList(e): return T('list', e)
def TSeq(e): return T('seq', e)
def TSet(e): return T('set', e)
def TPSet(e): return T('pset', e)
def TDict(k, v): return T('dict', k, v)
def TPMap(k, v): return T('pmap', k, v)
def TObj(n): return T('obj', n)
def TEnum(n): return T('enum', n)
def TOpt(t): return t if t.k in ('opt', 'none') else T('opt', t)
def TTuple(*ts): return T('tuple', *ts)


ENUMS = set()


def parse_type(s):
    if isinstance(s, T):
        return s
    s = s.strip()
    pos = [0]

    def ident():
        i = pos[0]
        while i < len(s) and (s[i].isalnum() or s[i] in '_.'):
            i += 1
        r = s[pos[0]:i]
        pos[0] = i
        return r

    def ty():
        n = ident()
        args = []
        if pos[0] < len(s) and s[pos[0]] == '[':
            pos[0] += 1
            while True:
                args.append(ty())
                if s[pos[0]] == ',':
                    pos[0] += 1
                    continue
                assert s[pos[0]] == ']', s
                pos[0] += 1
                break
        base = {'int': INT, 'bool': BOOL, 'none': NONE, 'str': STR, 'bytes': BYTES, 'py': PY, 'json': T('json')}.get(n)
        if base is None:
            if n in ('list', 'seq', 'set', 'pset', 'dict', 'pmap', 'tuple'):
                base = T(n, *args)
            elif n in ENUMS:
                base = TEnum(n)
            else:
                assert not args, s
                base = TObj(n)
        while pos[0] < len(s) and s[pos[0]] == '?':
            pos[0] += 1
            base = TOpt(base)
        return base
    s = s.replace(' ', '')
    r = ty()
    assert pos[0] == len(s), (s, pos)
    return r


REFK = ('obj', 'list', 'set', 'dict')


def is_ref(t):
    return t.k in REFK or (t.k == 'opt' and t.a[0].k in REFK)


# ------------------------------------------------------------------ sorts

_sorts = {}
_dts = {}


def sort_of(t):
    k = t.k
    if k in ('int', 'enum', 'none', 'json') or k in REFK:
        return z3.IntSort()
    if k == 'bool':
        return z3.BoolSort()
    if k in ('str', 'bytes'):
        return seqth(z3.IntSort()).S
    if k == 'seq':
        return seqth(sort_of(t.a[0])).S
    if k == 'pset':
        return z3.ArraySort(sort_of(t.a[0]), z3.BoolSort())
    if k == 'opt':
        if is_ref(t):
            return z3.IntSort()
        return opt_dt(sort_of(t.a[0]))
    if k == 'tuple':
        return tup_dt([sort_of(x) for x in t.a])
    if k == 'pmap':
        return tup_dt([z3.ArraySort(sort_of(t.a[0]), z3.BoolSort()), z3.ArraySort(sort_of(t.a[0]), sort_of(t.a[1]))])
    raise TypeError('no sort for type %s' % t)


def _n(s):
    return str(s).replace(' ', '').replace('(', '_').replace(')', '').replace(',', '_')


def opt_dt(s):
    key = ('opt', s.sexpr())
    if key not in _dts:
        d = z3.Datatype('Opt_' + _n(s))
        d.declare('none_' + _n(s))
        d.declare('some_' + _n(s), ('val_' + _n(s), s))
        _dts[key] = d.create()
    return _dts[key]


def tup_dt(ss):
    key = ('tup',) + tuple(s.sexpr() for s in ss)
    if key not in _dts:
        nm = '_'.join(_n(s) for s in ss)
        d = z3.Datatype('Tup%d_%s' % (len(ss), nm))
        d.declare('mk%d_%s' % (len(ss), nm), *[('p%d_%s' % (i, nm), s) for i, s in enumerate(ss)])
        _dts[key] = d.create()
    return _dts[key]


# ------------------------------------------------------------------ sequences

_seqs = {}


def seqth(esort):
    k = esort.sexpr()
    if k not in _seqs:
        _seqs[k] = SeqTh(esort)
    return _seqs[k]


def seq_of_term(term):
    n = term.sort().name()
    for th in _seqs.values():
        if th.S.name() == n:
            return th
    raise TypeError('not a sequence: %s' % term.sort())


def is_seq_sort(s):
    return any(th.S.name() == s.name() for th in _seqs.values())


class SeqTh:
    """Axiomatised finite sequences (in the style of the Dafny/Boogie prelude), one copy per element sort."""

    def __init__(self, E):
        self.E = E
        n = self.n = 'Seq<%s>' % _n(E)
        S = self.S = z3.DeclareSort(n)
        I, B = z3.IntSort(), z3.BoolSort()
        F = z3.Function
        self.len = F('len.' + n, S, I)
        self.idx = F('idx.' + n, S, I, E)
        self.empty = z3.Const('empty.' + n, S)
        self.single_ = F('single.' + n, E, S)
        self.cat_ = F('cat.' + n, S, S, S)
        self.slice_ = F('slice.' + n, S, I, I, S)
        self.upd_ = F('upd.' + n, S, I, E, S)
        self.rep_ = F('rep.' + n, E, I, S)
        self.eq_ = F('eq.' + n, S, S, B)
        self.diff = F('diff.' + n, S, S, I)
        self.has_ = F('has.' + n, S, E, B)
        self.find = F('find.' + n, S, E, I)
        self._ax = None

    # smart constructors
    def lenof(self, s):
        d = s.decl()
        if d.eq(self.empty.decl()):
            return z3.IntVal(0)
        if d.eq(self.single_):
            return z3.IntVal(1)
        if d.eq(self.cat_):
            return self.lenof(s.arg(0)) + self.lenof(s.arg(1))
        if d.eq(self.upd_):
            return self.lenof(s.arg(0))
        lit = LITS_REV.get(s.get_id())
        if lit is not None:
            return z3.IntVal(len(lit))
        return self.len(s)

    def at(self, s, i):
        d = s.decl()
        if d.eq(self.single_) and z3.is_int_value(i) and i.as_long() == 0:
            return s.arg(0)
        lit = LITS_REV.get(s.get_id())
        if lit is not None and z3.is_int_value(i) and 0 <= i.as_long() < len(lit):
            return z3.IntVal(lit[i.as_long()])
        return self.idx(s, i)

    def cat(self, a, b):
        if a.decl().eq(self.empty.decl()):
            return b
        if b.decl().eq(self.empty.decl()):
            return a
        if a.decl().eq(self.cat_):      # right associated
            return self.cat(a.arg(0), self.cat(a.arg(1), b))
        return self.cat_(a, b)

    def slice(self, s, a, b):
        a, b = z3.simplify(a), z3.simplify(b)
        if z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() == b.as_long():
            return self.empty
        if z3.is_int_value(a) and a.as_long() == 0 and b.eq(z3.simplify(self.lenof(s))):
            return s
        if a.eq(b):
            return self.empty
        return self.slice_(s, a, b)

    def single(self, v):
        return self.single_(v)

    def upd(self, s, i, v):
        return self.upd_(s, i, v)

    def rep(self, v, n):
        return self.rep_(v, n)

    def lit(self, vs):
        r = self.empty
        for v in reversed(vs):
            r = self.cat(self.single_(v), r)
        return r

    def eq(self, a, b):
        if a.eq(b):
            return z3.BoolVal(True)
        if b.decl().eq(self.empty.decl()):
            return self.lenof(a) == 0
        if a.decl().eq(self.empty.decl()):
            return self.lenof(b) == 0
        return self.eq_(a, b)

    def has(self, s, v):
        d = s.decl()
        if d.eq(self.empty.decl()):
            return z3.BoolVal(False)
        if d.eq(self.single_):
            return eq_terms(s.arg(0), v)
        if d.eq(self.cat_):
            return z3.Or(self.has(s.arg(0), v), self.has(s.arg(1), v))
        return self.has_(s, v)

    def axioms(self):
        if self._ax is not None:
            return self._ax
        S, E = self.S, self.E
        s, t, u = z3.Consts('s t u', S)
        i, j, n, a, b = z3.Ints('i j n a b')
        v = z3.Const('v', E)
        FA = z3.ForAll
        L, X = self.len, self.idx
        ax = []

        def add(vs, body, *pats):
            ax.append(FA(vs, body, patterns=[p if not isinstance(p, tuple) else z3.MultiPattern(*p) for p in pats], qid='seqax%d' % len(ax)))
        add([s], L(s) >= 0, L(s))
        ax.append(L(self.empty) == 0)
        add([s], z3.Implies(L(s) == 0, s == self.empty), L(s))
        add([v], z3.And(L(self.single_(v)) == 1, X(self.single_(v), 0) == v), self.single_(v))
        c = self.cat_(s, t)
        add([s, t], L(c) == L(s) + L(t), c)
        add([s, t, i], z3.And(z3.Implies(z3.And(0 <= i, i < L(s)), X(c, i) == X(s, i)),
                              z3.Implies(z3.And(L(s) <= i), X(c, i) == X(t, i - L(s)))), X(c, i))
        # reverse direction: elements of the parts are elements of the whole
        add([s, t, i], z3.Implies(z3.And(0 <= i, i < L(s)), X(c, i) == X(s, i)), (X(s, i), c))
        sl = self.slice_(s, a, b)
        add([s, a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= L(s)), L(sl) == b - a), sl)
        add([s, a, b, i], z3.Implies(z3.And(0 <= a, b <= L(s), 0 <= i, i < b - a), X(sl, i) == X(s, a + i)), X(sl, i))
        add([s, a, b, i], z3.Implies(z3.And(0 <= a, b <= L(s), a <= i, i < b), X(sl, i - a) == X(s, i)), (X(s, i), sl))
        up = self.upd_(s, i, v)
        add([s, i, v], z3.Implies(z3.And(0 <= i, i < L(s)), z3.And(L(up) == L(s), X(up, i) == v)), up)
        add([s, i, v, j], z3.Implies(z3.And(0 <= i, i < L(s), 0 <= j, j < L(s), i != j), X(up, j) == X(s, j)), X(up, j))
        add([s, i, v, j], z3.Implies(z3.And(0 <= i, i < L(s), 0 <= j, j < L(s), i != j), X(up, j) == X(s, j)), (X(s, j), up))
        r = self.rep_(v, n)
        add([v, n], L(r) == z3.If(n > 0, n, 0), r)
        add([v, n, i], z3.Implies(z3.And(0 <= i, i < n), X(r, i) == v), X(r, i))
        e = self.eq_(s, t)
        d = self.diff(s, t)
        add([s, t], z3.Implies(e, s == t), e)
        neq = X(s, d) != X(t, d)
        if is_seq_sort_obj(E):
            neq = z3.Not(seq_with_sort(E).eq_(X(s, d), X(t, d)))
        add([s, t], z3.Implies(z3.Not(e), z3.And(s != t, z3.Or(L(s) != L(t), z3.And(0 <= d, d < L(s), neq)))), e)
        h = self.has_(s, v)
        f = self.find(s, v)
        add([s, v], z3.Implies(h, z3.And(0 <= f, f < L(s), X(s, f) == v)), h)
        add([s, v, i], z3.Implies(z3.And(0 <= i, i < L(s), X(s, i) == v), h), (h, X(s, i)))
        self._ax = ax
        return ax


def is_seq_sort_obj(E):
    return any(th.S.eq(E) for th in _seqs.values())


def seq_with_sort(E):
    for th in _seqs.values():
        if th.S.eq(E):
            return th
    raise KeyError


def eq_terms(a, b):
    if is_seq_sort(a.sort()):
        return seq_of_term(a).eq(a, b)
    return a == b


# literals: constants with ground facts
LITS = {}
LITS_REV = {}


def seq_lit(vals, tag):
    """A literal sequence of ints (string or bytes constant)."""
    vals = tuple(vals)
    th = seqth(z3.IntSort())
    if not vals:
        return th.empty
    if vals not in LITS:
        shown = ''.join(chr(v) if 33 <= v < 127 and chr(v) not in '|\\' else '_%x' % v for v in vals[:24])
        c = z3.Const('lit%d.%s' % (len(LITS), shown), th.S)
        LITS[vals] = c
        LITS_REV[c.get_id()] = vals
    return LITS[vals]


def lit_axioms(term_ids):
    th = seqth(z3.IntSort())
    out = []
    for vals, c in LITS.items():
        if c.decl().name() in term_ids:
            out.append(th.len(c) == len(vals))
            for i, v in enumerate(vals):
                out.append(th.idx(c, z3.IntVal(i)) == v)
    return out


# ------------------------------------------------------------------ bit operations on mathematical integers

bitor_ = z3.Function('bitor', z3.IntSort(), z3.IntSort(), z3.IntSort())
bitand_ = z3.Function('bitand', z3.IntSort(), z3.IntSort(), z3.IntSort())
bitxor_ = z3.Function('bitxor', z3.IntSort(), z3.IntSort(), z3.IntSort())


def _ival(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else None


def shr(x, k):
    kv = _ival(k)
    if kv is None or kv < 0:
        return z3.Function('shr', z3.IntSort(), z3.IntSort(), z3.IntSort())(x, k)
    return x / (1 << kv)


def shl(x, k):
    kv = _ival(k)
    if kv is None or kv < 0:
        return z3.Function('shl', z3.IntSort(), z3.IntSort(), z3.IntSort())(x, k)
    return x * (1 << kv)


def band(x, y):
    xv, yv = _ival(x), _ival(y)
    if xv is not None and yv is not None:
        return z3.IntVal(xv & yv)
    if xv is not None:
        x, y, yv = y, x, xv
    if yv is None:
        return bitand_(x, y)
    if yv < 0:
        return x - band(x, z3.IntVal(~yv))
    # decompose the mask into contiguous runs: x & m is the sum of ((x div 2^a) mod 2^(b-a)) * 2^a
    r = None
    a = 0
    m = yv
    while m:
        while not m & 1:
            m >>= 1
            a += 1
        b = a
        while m & 1:
            m >>= 1
            b += 1
        part = ((x / (1 << a)) % (1 << (b - a))) * (1 << a) if a else x % (1 << b)
        r = part if r is None else r + part
        a = b
    return r if r is not None else z3.IntVal(0)


def _pow2_factor(t):
    """k such that t is syntactically a multiple of 2^k (largest seen), else 0"""
    t = z3.simplify(t)
    if z3.is_int_value(t):
        v = t.as_long()
        if v == 0:
            return 1000
        k = 0
        while v % 2 == 0:
            v //= 2
            k += 1
        return k
    if z3.is_mul(t):
        return sum(_pow2_factor(c) for c in t.children() if z3.is_int_value(c))
    if z3.is_add(t):
        return min(_pow2_factor(c) for c in t.children())
    return 0


def bor(x, y):
    xv, yv = _ival(x), _ival(y)
    if xv is not None and yv is not None:
        return z3.IntVal(xv | yv)
    if xv == 0:
        return y
    if yv == 0:
        return x
    # a*2^k | y  ==  a*2^k + y  when 0 <= y < 2^k; in general  x | m == x + m - (x & m) for a constant m
    if yv is not None:
        return x + y - band(x, y)
    if xv is not None:
        return x + y - band(x, y)
    for p, q in ((x, y), (y, x)):
        k = _pow2_factor(p)
        if 0 < k < 1000:
            return z3.If(z3.And(0 <= q, q < (1 << k)), p + q, z3.If(q == -1, z3.IntVal(-1), bitor_(p, q)))
    return bitor_(x, y)


def has_ite(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES):
                return True
            st.extend(x.children())
    return False


def mention(t):
    """a predicate that holds of everything: asserting it makes the solver consider the term"""
    return z3.Function('mention.%s' % t.sort(), t.sort(), z3.BoolSort())(t)
