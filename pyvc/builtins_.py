"""Builtin functions and methods of builtin types."""
import ast
import z3
from . import theory as th
from .theory import (T, INT, BOOL, NONE, STR, BYTES, PY, TList, TSeq, TSet, TPSet, TDict, TObj, TEnum, TOpt, TTuple, parse_type,
                     sort_of, seqth, is_ref, opt_dt, tup_dt)
from .api import R
from .frontend import FuncInfo, ClassInfo, Module
from .sym import V, TVar, PathEnd, Restart, Unsupported, PyRaise, intval, zand, zor, zsimp, BIGINF
from .expr import It


class BuiltinMixin:
    def b_len(self, a, kw, n):
        v = a[0]
        if v.t.k == 'opt':
            v = self.unopt(v, n)
        if v.t.k == 'tuple':
            return self.mk_int(len(v.t.a))
        if v.t.k == 'py' and isinstance(v.py, tuple) and v.py[0] in ('sdict',):
            return self.mk_int(len(v.py[1]))
        if v.t.k == 'py' and isinstance(v.py, tuple) and v.py[0] == 'range':
            return V(INT, self.iterable(v, n).n)
        if v.t.k == 'obj':
            c = R.classes.get(v.t.a[0])
            f = self.find_method(self.prog.lookup(c.qual), '__len__') if c and c.qual else None
            if f is not None:
                return self.call_function(f, [v], {}, n)
            raise Unsupported('len of %s' % v.t, n)
        if v.t.k in ('list', 'dict', 'set') and v.t.a[0].k == 'tvar' and self.elemtypes.get(v.t.a[0].a[0]) is None:
            return self.mk_int(0)
        if v.t.k in ('set', 'pset'):
            q = self.set_elems(v)
            return V(INT, seqth(sort_of(v.t.a[0])).len(q))
        q, e = self.as_seq(v, n)
        return V(INT, th.seq_of_term(q).lenof(q))

    def b_range(self, a, kw, n):
        xs = [self.to_int(x, n) for x in a]
        if len(xs) == 1:
            return V(PY, None, ('range', z3.IntVal(0), xs[0], 1))
        if len(xs) == 2:
            return V(PY, None, ('range', xs[0], xs[1], 1))
        st = intval(xs[2])
        if st is None or st == 0:
            raise Unsupported('range step', n)
        return V(PY, None, ('range', xs[0], xs[1], st))

    def b_ord(self, a, kw, n):
        v = a[0]
        s = seqth(z3.IntSort())
        if v.t.k == 'opt':
            v = self.unopt(v, n)
        self.safety(s.lenof(v.z) == 1, 'TypeError', n)
        return V(INT, s.at(v.z, z3.IntVal(0)))

    def b_chr(self, a, kw, n):
        x = self.to_int(a[0], n)
        self.safety(z3.And(0 <= x, x < 0x110000), 'ValueError', n)
        return V(STR, seqth(z3.IntSort()).single_(x))

    def b_abs(self, a, kw, n):
        x = self.to_int(a[0], n)
        return V(INT, z3.If(x >= 0, x, -x))

    def b_bool(self, a, kw, n):
        return V(BOOL, self.truth(a[0], n)) if a else self.mk_bool(False)

    def b_int(self, a, kw, n):
        v = a[0]
        if v.t.k in ('int', 'bool'):
            return V(INT, self.to_int(v, n))
        if v.t.k == 'opt' and v.t.a[0].k == 'int':
            return self.unopt(v, n)
        if v.t.k == 'str':
            base = intval(self.to_int(a[1], n)) if len(a) > 1 else 10
            if 'int%d' % base in R.externs:
                ok = self.extern_call(R.externs['isint%d' % base], [v], n)
                self.safety(ok.z, 'ValueError', n)
                return self.extern_call(R.externs['int%d' % base], [v], n)
        raise Unsupported('int(%s)' % v.t, n)

    def b_str(self, a, kw, n):
        if not a:
            return self.mk_str('')
        v = a[0]
        if v.t.k == 'str':
            return v
        if v.t.k == 'int' and 'str_of_int' in R.externs:
            return self.extern_call(R.externs['str_of_int'], [v], n)
        if v.t.k == 'obj':
            c = R.classes.get(v.t.a[0])
            f = self.find_method(self.prog.lookup(c.qual), '__str__') if c and c.qual else None
            if f is not None:
                return self.call_function(f, [v], {}, n)
        return self.opaque_str(n)

    def b_repr(self, a, kw, n):
        return self.opaque_str(n)

    def b_list(self, a, kw, n):
        if not a:
            site = self.site(n)
            t = self.elemtypes.get(site)
            if self.spec_mode:
                return V(TTuple(), None, py=[])
            if t is None:
                return V(TList(TVar(site)), self.new_ref())
            return self.new_list(t, seqth(sort_of(t)).empty)
        v = a[0]
        if v.t.k == 'str':
            raise Unsupported('list(str)', n)
        if v.t.k == 'py':
            s, t = self.seq_of_iter(v, n)
        else:
            if v.t.k == 'list' and v.t.a[0].k == 'tvar' and self.elemtypes.get(v.t.a[0].a[0]) is None:
                return v
            s, t = self.as_seq(v, n)
        if self.spec_mode or self.qvars:
            return V(TSeq(t), s)
        return self.new_list(t, s)

    def seq_of_iter(self, v, n):
        """materialise a lazy iterable as a sequence term"""
        if v.t.k == 'py' and isinstance(v.py, tuple) and v.py[0] == 'reversed' and v.py[2] is not None:
            r = self.reverse(v.py[2], n)
            return self.as_seq(r) if r.t.k != 'list' else (self.list_content(r), self.elt(r))
        it = self.iterable(v, n)
        i = z3.Int(self.fresh_name('i?'))
        self.qenter(i, z3.And(0 <= i, i < it.n))
        try:
            e = it.at(i)
        finally:
            fs = self.qleave()
        tt = seqth(sort_of(e.t))
        q = self.fresh('seq@%d' % getattr(n, 'lineno', 0), tt.S)
        self.assume(tt.len(q) == it.n if self.decide(it.n >= 0) is True else tt.len(q) == z3.If(it.n > 0, it.n, z3.IntVal(0)))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < it.n), zand(fs + [tt.idx(q, i) == self.tz(e)])), patterns=[tt.idx(q, i)]))
        return q, e.t

    def b_tuple(self, a, kw, n):
        if a and a[0].t.k == 'tuple':
            return a[0]
        v = self.b_list(a, kw, n)
        q, e = self.as_seq(v)
        return V(TSeq(e), q)

    def b_set(self, a, kw, n):
        if not a:
            site = self.site(n)
            t = self.elemtypes.get(site)
            if t is None:
                return V(TSet(TVar(site)), self.new_ref())
            return self.new_set(t.a[0] if t.k == 'set' else t, z3.K(sort_of(t.a[0] if t.k == 'set' else t), z3.BoolVal(False)))
        v = a[0]
        if v.t.k in ('set', 'pset'):
            return self.new_set(v.t.a[0], self.set_val(v))
        q, e = self.as_seq(v, n)
        tt = seqth(sort_of(e))
        s = self.fresh('setof', z3.ArraySort(sort_of(e), z3.BoolSort()))
        x = z3.Const('x!', sort_of(e))
        self.assume(z3.ForAll([x], z3.Select(s, x) == tt.has(q, x), patterns=[z3.Select(s, x)]))
        return self.new_set(e, s)
    b_frozenset = b_set

    def b_dict(self, a, kw, n):
        if a or kw:
            raise Unsupported('dict(...)', n)
        return self.e_Dict(ast.Dict(keys=[], values=[], lineno=n.lineno, col_offset=n.col_offset))

    def b_min(self, a, kw, n):
        return self.minmax(a, kw, n, True)

    def b_max(self, a, kw, n):
        return self.minmax(a, kw, n, False)

    def minmax(self, a, kw, n, mn):
        if len(a) == 1:
            if 'key' in kw or kw:
                raise Unsupported('min/max with key', n)
            q, e = self.as_seq(a[0], n) if a[0].t.k != 'py' else self.seq_of_iter(a[0], n)
            tt = th.seq_of_term(q)
            self.safety(tt.lenof(q) > 0, 'ValueError', n)
            r = self.fresh('min', z3.IntSort())
            i = z3.Int('i!')
            j = self.fresh('argmin', z3.IntSort())
            self.assume(z3.And(0 <= j, j < tt.lenof(q), tt.idx(q, j) == r))
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tt.lenof(q)), r <= tt.idx(q, i) if mn else r >= tt.idx(q, i)), patterns=[tt.idx(q, i)]))
            return V(INT, r)

        def conv(x):
            if x.t.k == 'py':
                f = x.py[1]
                return z3.IntVal(BIGINF if f > 0 else -BIGINF)
            return self.to_int(x, n)
        r = conv(a[0])
        for x in a[1:]:
            y = conv(x)
            c = (r <= y) if mn else (r >= y)
            d = self.decide(c) if not self.spec_mode else None
            r = r if d is True else y if d is False else z3.If(c, r, y)
        return V(INT, r)

    def b_sum(self, a, kw, n):
        q, e = self.as_seq(a[0], n) if a[0].t.k != 'py' else self.seq_of_iter(a[0], n)
        if 'sum_seq' in R.specs:
            return self.spec_call(R.specs['sum_seq'], [V(TSeq(INT), q)], n)
        raise Unsupported('sum', n)

    def b_enumerate(self, a, kw, n):
        st = self.to_int(a[1], n) if len(a) > 1 else self.to_int(kw['start'], n) if 'start' in kw else z3.IntVal(0)
        return V(PY, None, ('enumerate', self.iterable(a[0], n), st))

    def b_zip(self, a, kw, n):
        return V(PY, None, ('zip', [self.iterable(x, n) for x in a]))

    def b_reversed(self, a, kw, n):
        return V(PY, None, ('reversed', self.iterable(a[0], n), a[0] if a[0].t.k != 'py' else None))

    def b_map(self, a, kw, n):
        return V(PY, None, ('map', a[0], self.iterable(a[1], n)))

    def b_sorted(self, a, kw, n):
        """a permutation in key order: modelled by an index permutation"""
        v = a[0]
        q, e = self.as_seq(v, n) if v.t.k != 'py' else self.seq_of_iter(v, n)
        return self.sorted_seq(q, e, a, kw, n)

    def sorted_seq(self, q, e, a, kw, n):
        tt = th.seq_of_term(q)
        I = seqth(z3.IntSort())
        r = self.fresh('sorted', tt.S)
        p = self.fresh('perm', I.S)
        pi = self.fresh('permi', I.S)
        ln = tt.lenof(q)
        i, j = z3.Ints('i! j!')
        rngi = z3.And(0 <= i, i < ln)
        self.assume(z3.And(tt.len(r) == ln, I.len(p) == ln, I.len(pi) == ln))
        self.assume(z3.ForAll([i], z3.Implies(rngi, z3.And(0 <= I.idx(p, i), I.idx(p, i) < ln, tt.idx(r, i) == tt.idx(q, I.idx(p, i)),
                                                           I.idx(pi, I.idx(p, i)) == i)), patterns=[tt.idx(r, i), I.idx(p, i)]))
        self.assume(z3.ForAll([i], z3.Implies(rngi, z3.And(0 <= I.idx(pi, i), I.idx(pi, i) < ln, I.idx(p, I.idx(pi, i)) == i,
                                                           tt.idx(r, I.idx(pi, i)) == tt.idx(q, i))), patterns=[tt.idx(q, i), I.idx(pi, i)]))
        key = kw.get('key')
        rev = kw.get('reverse')
        if rev is not None:
            raise Unsupported('sorted reverse', n)
        self.qenter(i, rngi)
        try:
            ki = self.call_value(key, [V(e, tt.idx(r, i))], {}, n) if key is not None else V(e, tt.idx(r, i))
        finally:
            fs = self.qleave()
        if fs:
            raise Unsupported('sort key', n)
        if ki.t.k == 'int':
            kj = z3.substitute(ki.z, (i, j))
            self.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln), z3.And(ki.z <= kj, z3.Implies(ki.z == kj, I.idx(p, i) < I.idx(p, j)))),
                                  patterns=[z3.MultiPattern(tt.idx(r, i), tt.idx(r, j))]))
        return self.new_list(e, r)

    def b_isinstance(self, a, kw, n):
        v, c = a
        def one(p):
            if isinstance(p, ClassInfo):
                nm = self.class_of_qual.get(p.qual)
                if v.t.k == 'obj':
                    return z3.BoolVal(nm is not None and self.is_subclass(v.t.a[0], nm))
                if v.t.k == 'opt' and v.t.a[0].k == 'obj':
                    return z3.And(z3.Not(self.is_none(v)), z3.BoolVal(nm is not None and self.is_subclass(v.t.a[0].a[0], nm)))
                return z3.BoolVal(False)
            if isinstance(p, tuple) and p[0] == 'builtin':
                m = {'str': ('str',), 'int': ('int', 'bool'), 'list': ('list',), 'bytes': ('bytes',), 'dict': ('dict',), 'bool': ('bool',),
                     'tuple': ('tuple',), 'set': ('set',)}.get(p[1])
                if m is None:
                    raise Unsupported('isinstance %s' % p[1], n)
                if v.t.k == 'opt':
                    return z3.And(z3.Not(self.is_none(v)), z3.BoolVal(v.t.a[0].k in m))
                return z3.BoolVal(v.t.k in m)
            raise Unsupported('isinstance', n)
        if c.t.k == 'tuple':
            return V(BOOL, zor([one(x.py) for x in self.tuple_items(c)]))
        return V(BOOL, one(c.py))

    def b_all(self, a, kw, n):
        q, e = self.as_seq(a[0], n)
        raise Unsupported('all() of a list', n)

    def b_getattr(self, a, kw, n):
        o, nm = a[0], a[1]
        s = nm.py[1] if isinstance(nm.py, tuple) and nm.py[0] == 'strlit' else None
        if s is not None:
            return self.getattr(o, s, n)
        if o.t.k == 'py' and isinstance(o.py, tuple) and o.py[0] == 'enumcls':
            # getattr(EnumClass, name)
            ms = self.enum_list(o.py[1])
            eqs = [self.equal(nm, self.mk_str(m)) for m in ms]
            if self.exc_allowed('AttributeError'):
                # attributes of the class that are not members (methods) are not modelled: excluded by assumption
                if self.choose([zor(eqs), z3.Not(zor(eqs))]) == 1:
                    raise PyRaise('AttributeError', n)
            else:
                self.oblige(zor(eqs), 'no-AttributeError', n)
            r = z3.IntVal(len(ms) - 1)
            for i in range(len(ms) - 2, -1, -1):
                r = z3.If(eqs[i], z3.IntVal(i), r)
            return V(TEnum(o.py[1]), r)
        raise Unsupported('getattr', n)

    def b_print(self, a, kw, n):
        if 'print' in self.print_hook:
            return self.print_hook['print'](a, kw, n)
        return self.mk_none()

    print_hook = {}

    def b_iter(self, a, kw, n):
        return a[0]

    def b_type(self, a, kw, n):
        raise Unsupported('type()', n)

    def b_super(self, a, kw, n):
        raise Unsupported('super()', n)

    def b_bytes(self, a, kw, n):
        if not a:
            return self.mk_bytes(b'')
        if a[0].t.k == 'bytes':
            return a[0]
        raise Unsupported('bytes()', n)

    # spec-only
    def b_rep(self, a, kw, n):
        tt = th.seq_of_term
        v = a[0]
        if v.t.k in ('str', 'bytes'):
            s = seqth(z3.IntSort())
            return V(v.t, s.rep(s.at(v.z, z3.IntVal(0)), self.to_int(a[1], n)))
        return V(TSeq(v.t), seqth(sort_of(v.t)).rep(self.tz(v), self.to_int(a[1], n)))

    def b_upd(self, a, kw, n):
        q, e = self.as_seq(a[0], n)
        return V(TSeq(e) if a[0].t.k == 'list' else a[0].t, th.seq_of_term(q).upd(q, self.to_int(a[1], n), self.tz(self.coerce(a[2], e, n))))

    def b_every(self, a, kw, n):
        """all values of a type: for x in every('str')"""
        return V(PY, None, ('every', parse_type(a[0].py[1])))

    def b_iff(self, a, kw, n):
        return V(BOOL, self.truth(a[0]) == self.truth(a[1]))

    def b_fresh(self, a, kw, n):
        """the reference was allocated during the call"""
        f = self.fr
        while f is not None and f.entry is None:
            f = f.parent
        return V(BOOL, a[0].z >= f.entry[2])

    def b_allocated(self, a, kw, n):
        return V(BOOL, z3.And(a[0].z > 0, a[0].z < self.alloc))

    def b_seqof(self, a, kw, n):
        q, e = self.as_seq(a[0], n)
        return V(TSeq(e), q)

    def b_is_in(self, a, kw, n):
        return V(BOOL, self.contains(a[1], a[0], n))

    def b_unchanged(self, a, kw, n):
        """unchanged('Class.field', obj, ...): the field has its old value in every object that existed before, except the given ones"""
        key = self.read_key(a[0].py[1])
        f = self.fr
        while f is not None and f.entry is None:
            f = f.parent
        cur = self.harr(key)
        old = f.entry[1][key]
        r = z3.Int('r!')
        e = z3.Select(cur, r)
        return V(BOOL, z3.ForAll([r], z3.Implies(zand([0 < r, r < f.entry[2]] + [r != x.z for x in a[1:]]), e == z3.Select(old, r)), patterns=[e]))

    # ------------------------------------------------------------ list methods
    def atom(self, z):
        """a name for a compound truth value (patterns may not contain connectives)"""
        if z.sort() == z3.BoolSort() and z.num_args() > 0 and z.decl().kind() != z3.Z3_OP_UNINTERPRETED or th.has_ite(z):
            b = self.fresh('b', z.sort())
            self.assume(b == z)
            return b
        return z

    def list_append(self, o, v, n):
        e = o.t.a[0]
        if e.k == 'tvar' and self.elemtypes.get(e.a[0]) is None:
            t = v.t
            if t.k == 'list' and t.a[0].k == 'tvar':
                et = self.elemtypes.get(t.a[0].a[0])
                if et is None:
                    raise Unsupported('element type of nested list', n)
                t = TList(et)
            self.set_elt(o, t)
        e = self.elt(o)
        q = self.list_content(o)
        try:
            v = self.coerce(v, e, n)
        except Unsupported:
            if o.t.a[0].k == 'tvar':
                j = self.join_type(e, v.t)
                if j != e:
                    self.elemtypes[o.t.a[0].a[0]] = j
                    self.restart()
            raise
        self.hwrite(('L', str(e)), o.z, th.seqth(sort_of(e)).cat(q, th.seqth(sort_of(e)).single_(self.atom(self.tz(v)))), n)

    def list_extend(self, o, v, n):
        if v.t.k == 'py':
            q2, e2 = self.seq_of_iter(v, n)
        elif v.t.k == 'list' and v.t.a[0].k == 'tvar' and self.elemtypes.get(v.t.a[0].a[0]) is None:
            return
        elif v.t.k == 'tuple' and not v.t.a:
            return
        else:
            q2, e2 = self.as_seq(v, n)
        e = o.t.a[0]
        if e.k == 'tvar' and self.elemtypes.get(e.a[0]) is None:
            self.set_elt(o, e2)
        e = self.elt(o)
        if sort_of(e) != sort_of(e2):
            raise Unsupported('extend types', n)
        q = self.list_content(o)
        self.hwrite(('L', str(e)), o.z, th.seqth(sort_of(e)).cat(q, q2), n)

    def call_method(self, o, name, args, kw, n):
        if o.t.k == 'opt':
            o = self.unopt(o, n, 'AttributeError')
        k = o.t.k
        m = getattr(self, 'm_%s_%s' % (k, name), None)
        if m is not None:
            return m(o, args, kw, n)
        ek = '%s.%s' % (k if k != 'obj' else o.t.a[0], name)
        if ek in R.externs:
            return self.extern_call(R.externs[ek], [o] + args, n)
        if k == 'py' and isinstance(o.py, tuple) and o.py[0] == 'super':
            ci = o.py[1]
            for c in self.prog.mro(ci)[1:]:
                if name in c.methods:
                    return self.call_function(c.methods[name], [o.py[2]] + args, kw, n)
            if name == '__init__':
                return self.mk_none()
        if k == 'py' and isinstance(o.py, tuple):
            m = getattr(self, 'mp_%s_%s' % (o.py[0], name), None)
            if m is not None:
                return m(o, args, kw, n)
        raise Unsupported('method %s of %s' % (name, o.t if k != 'py' else o.py), n)

    def m_list_append(self, o, a, kw, n):
        self.list_append(o, a[0], n)
        return self.mk_none()

    def m_list_extend(self, o, a, kw, n):
        self.list_extend(o, a[0], n)
        return self.mk_none()

    def m_list_insert(self, o, a, kw, n):
        e = self.elt(o)
        q = self.list_content(o)
        tt = th.seq_of_term(q)
        ln = tt.lenof(q)
        p = self.norm_slice(a[0], ln, n)
        v = self.coerce(a[1], e, n)
        if self.decide(p == ln) is True:
            r = tt.cat(q, tt.single_(self.tz(v)))
        else:
            r = tt.cat(tt.slice(q, z3.IntVal(0), p), tt.cat(tt.single_(self.tz(v)), tt.slice(q, p, ln)))
        self.hwrite(('L', str(e)), o.z, r, n)
        return self.mk_none()

    def m_list_clear(self, o, a, kw, n):
        if o.t.a[0].k == 'tvar' and self.elemtypes.get(o.t.a[0].a[0]) is None:
            return self.mk_none()
        e = self.elt(o)
        self.hwrite(('L', str(e)), o.z, seqth(sort_of(e)).empty, n)
        return self.mk_none()

    def m_list_pop(self, o, a, kw, n):
        e = self.elt(o)
        q = self.list_content(o)
        tt = th.seq_of_term(q)
        ln = tt.lenof(q)
        if a:
            p = self.norm_index(self.to_int(a[0], n), ln, 'IndexError', n)
            r = tt.cat(tt.slice(q, z3.IntVal(0), p), tt.slice(q, p + 1, ln))
        else:
            self.safety(ln > 0, 'IndexError', n)
            p = ln - 1
            r = tt.slice(q, z3.IntVal(0), p)
        x = V(e, tt.idx(q, p))
        self.assume(self.type_facts(x))
        self.hwrite(('L', str(e)), o.z, r, n)
        return x

    def m_list_copy(self, o, a, kw, n):
        return self.new_list(self.elt(o), self.list_content(o))

    def m_list_reverse(self, o, a, kw, n):
        r = self.reverse(o, n)
        e = self.elt(o)
        self.hwrite(('L', str(e)), o.z, self.list_content(r), n)
        return self.mk_none()

    def m_list_index(self, o, a, kw, n):
        e = self.elt(o)
        q = self.list_content(o)
        tt = th.seq_of_term(q)
        x = self.coerce(a[0], e, n)
        if e.k == 'list' or e.k == 'obj':
            # position of the first element equal by content
            r = self.fresh('index', z3.IntSort())
            i = z3.Int(self.fresh_name('i?'))
            self.qenter(i, z3.And(0 <= i, i < tt.lenof(q)))
            try:
                eqi = self.equal(V(e, tt.idx(q, i)), x, n)
            finally:
                self.qleave()
            found = z3.Exists([i], z3.And(0 <= i, i < tt.lenof(q), eqi))
            has = self.fresh('found', z3.BoolSort())
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tt.lenof(q), eqi), has), patterns=[tt.idx(q, i)]))
            self.assume(z3.Implies(has, z3.And(0 <= r, r < tt.lenof(q), z3.substitute(eqi, (i, r)))))
            self.assume(z3.ForAll([i], z3.Implies(z3.And(has, 0 <= i, i < r), z3.Not(eqi)), patterns=[tt.idx(q, i)]))
            self.safety(has, 'ValueError', n)
            return V(INT, r)
        xz = self.tz(x)
        has = tt.has(q, xz)
        self.safety(has, 'ValueError', n)
        r = self.fresh('index', z3.IntSort())
        i = z3.Int('i!')
        self.assume(z3.Implies(has, z3.And(0 <= r, r < tt.lenof(q), tt.idx(q, r) == xz)))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(has, 0 <= i, i < r), tt.idx(q, i) != xz), patterns=[tt.idx(q, i)]))
        return V(INT, r)

    def m_list_sort(self, o, a, kw, n):
        e = self.elt(o)
        r = self.sorted_seq(self.list_content(o), e, [o], kw, n)
        self.hwrite(('L', str(e)), o.z, self.list_content(r), n)
        return self.mk_none()

    # ------------------------------------------------------------ dict / set methods
    def m_dict_items(self, o, a, kw, n):
        return V(PY, None, ('dictview', o, 'items'))

    def m_dict_keys(self, o, a, kw, n):
        return V(PY, None, ('dictview', o, 'keys'))

    def m_dict_values(self, o, a, kw, n):
        return V(PY, None, ('dictview', o, 'values'))

    def m_dict_get(self, o, a, kw, n):
        d = a[1] if len(a) > 1 else self.mk_none()
        if o.t.a[0].k == 'tvar' and self.elemtypes.get(o.t.a[0].a[0]) is None:
            return d
        kt, vt = self.dtypes(o)
        dom, val = self.dict_parts(o)
        kz = self.tz(self.coerce(a[0], kt, n))
        return self.ite(z3.Select(dom, kz), V(vt, z3.Select(val, kz)), d, n)

    def mp_sdict_get(self, o, a, kw, n):
        d = a[1] if len(a) > 1 else self.mk_none()
        return self.sdict_get(o, a[0], n, default=d)

    def mp_sdict_items(self, o, a, kw, n):
        return V(PY, None, ('dictview', o, 'items'))

    def mp_sdict_keys(self, o, a, kw, n):
        return V(PY, None, ('dictview', o, 'keys'))

    def mp_sdict_values(self, o, a, kw, n):
        return V(PY, None, ('dictview', o, 'values'))

    def m_set_add(self, o, a, kw, n):
        if o.t.a[0].k == 'tvar':
            t = self.elemtypes.get(o.t.a[0].a[0])
            if t is None:
                self.elemtypes[o.t.a[0].a[0]] = TSet(a[0].t)
                self.restart()
        e = o.t.a[0]
        v = self.coerce(a[0], e, n)
        self.hwrite(('S', str(e)), o.z, z3.Store(self.set_val(o), self.tz(v), z3.BoolVal(True)), n)
        return self.mk_none()

    def m_set_update(self, o, a, kw, n):
        e = o.t.a[0]
        v = a[0]
        if v.t.k not in ('set', 'pset'):
            v = self.b_set([v], {}, n)
        self.hwrite(('S', str(e)), o.z, z3.SetUnion(self.set_val(o), self.set_val(v)), n)
        return self.mk_none()

    def m_set_discard(self, o, a, kw, n):
        e = o.t.a[0]
        v = self.coerce(a[0], e, n)
        self.hwrite(('S', str(e)), o.z, z3.Store(self.set_val(o), self.tz(v), z3.BoolVal(False)), n)
        return self.mk_none()

    def m_set_remove(self, o, a, kw, n):
        v = self.coerce(a[0], o.t.a[0], n)
        self.safety(z3.Select(self.set_val(o), self.tz(v)), 'KeyError', n)
        return self.m_set_discard(o, a, kw, n)

    def m_set_copy(self, o, a, kw, n):
        return self.new_set(o.t.a[0], self.set_val(o))

    def m_set_union(self, o, a, kw, n):
        return self.binop(ast.BitOr(), o, a[0], n)

    def m_set_intersection(self, o, a, kw, n):
        return self.binop(ast.BitAnd(), o, a[0], n)

    def m_set_isdisjoint(self, o, a, kw, n):
        r = self.binop(ast.BitAnd(), o, a[0], n)
        return V(BOOL, z3.Not(self.truth(r)))

    # ------------------------------------------------------------ str / bytes methods
    def m_str_join(self, o, a, kw, n):
        v = a[0]
        s = seqth(z3.IntSort())
        if v.t.k == 'tuple' and not v.t.a:
            return self.mk_str('')
        q, e = self.as_seq(v, n) if v.t.k != 'py' else self.seq_of_iter(v, n)
        tt = th.seq_of_term(q)
        ln = intval(tt.lenof(q))
        if ln is not None and ln <= 8:
            r = s.empty
            parts = self.flat(q, tt, ln)
            for i, x in enumerate(parts):
                if i:
                    r = s.cat(r, o.z)
                r = s.cat(r, x)
            return V(STR, r)
        if 'join_seq' in R.specs:
            return self.spec_call(R.specs['join_seq'], [o, V(TSeq(STR), q)], n)
        raise Unsupported('str.join', n)

    def flat(self, q, tt, ln):
        out = []

        def walk(x):
            if x.decl().eq(tt.cat_):
                walk(x.arg(0))
                walk(x.arg(1))
            elif x.decl().eq(tt.single_):
                out.append(x.arg(0))
            elif x.decl().eq(tt.empty.decl()):
                pass
            else:
                out.append(None)
        walk(q)
        if None in out or len(out) != ln:
            return [tt.idx(q, z3.IntVal(i)) for i in range(ln)]
        return out

    def m_str_startswith(self, o, a, kw, n):
        s = seqth(z3.IntSort())
        p = a[0]
        if p.t.k == 'tuple':
            return V(BOOL, zor([self.m_str_startswith(o, [x], kw, n).z for x in self.tuple_items(p)]))
        lv = self.lit_chars(p.z)
        if lv is not None and len(a) == 1:
            return V(BOOL, zand([s.lenof(o.z) >= len(lv)] + [s.at(o.z, z3.IntVal(i)) == c for i, c in enumerate(lv)]))
        st = self.to_int(a[1], n) if len(a) > 1 else z3.IntVal(0)
        i = z3.Int(self.fresh_name('i?'))
        lp = s.lenof(p.z)
        return V(BOOL, z3.And(st + lp <= s.lenof(o.z), s.eq_(s.slice(o.z, st, st + lp), p.z)))

    def m_str_endswith(self, o, a, kw, n):
        s = seqth(z3.IntSort())
        p = a[0]
        lp = s.lenof(p.z)
        lo = s.lenof(o.z)
        return V(BOOL, z3.And(lp <= lo, s.eq_(s.slice(o.z, lo - lp, lo), p.z)))

    def m_str_format(self, o, a, kw, n):
        r = self.opaque_str(n)
        cs = self.lit_chars(o.z)
        if cs is not None:
            f = ''.join(map(chr, cs))
            parts = f.split('{}')
            if len(parts) == len(a) + 1 and not kw and '{' not in ''.join(parts) and '}' not in ''.join(parts) and all(x.t.k == 'str' or x.t.k == 'int' and 'str_of_int' in R.externs for x in a):
                q = seqth(z3.IntSort())
                z = self.mk_str(parts[0]).z
                for x, p in zip(a, parts[1:]):
                    z = q.cat(z, self.b_str([x], {}, n).z)
                    if p:
                        z = q.cat(z, self.mk_str(p).z)
                r = V(STR, z)
            r.fmt = (f, list(a))
        return r

    # ---- numbers in bytes
    def lit_of(self, v, n=None):
        cs = self.lit_chars(v.z) if v is not None and v.t.k == 'str' else None
        return ''.join(map(chr, cs)) if cs is not None else None

    def from_bytes(self, b, signed):
        return self.extern_call(R.externs['frombytes'], [b, self.mk_bool(signed) if isinstance(signed, bool) else signed], None)

    def mp_builtin_from_bytes(self, o, a, kw, n):
        if o.py[1] != 'int' or self.lit_of(a[1] if len(a) > 1 else kw.get('byteorder')) != 'little' or set(kw) - {'byteorder', 'signed'} or len(a) > 2:
            raise Unsupported('from_bytes', n)
        return self.from_bytes(a[0], kw.get('signed', self.mk_bool(False)))

    def m_int_to_bytes(self, o, a, kw, n):
        if self.lit_of(a[1] if len(a) > 1 else kw.get('byteorder')) != 'little' or set(kw) - {'byteorder', 'signed', 'length'} or len(a) > 2:
            raise Unsupported('to_bytes', n)
        k = a[0] if a else kw['length']
        kk = th.intval_(k.z) if hasattr(th, 'intval_') else (k.z.as_long() if z3.is_int_value(k.z) else None)
        if kk not in (1, 2, 4, 8):
            raise Unsupported('to_bytes length', n)
        s = self.truth(kw['signed']) if 'signed' in kw else z3.BoolVal(False)
        lo, hi = -(1 << (8 * kk - 1)), (1 << (8 * kk - 1)) - 1
        self.safety(z3.If(s, z3.And(o.z >= lo, o.z <= hi), z3.And(o.z >= 0, o.z <= (1 << 8 * kk) - 1)), 'OverflowError', n)
        return self.extern_call(R.externs['tobytes'], [V(INT, o.z), k], n)

    def unpack_seq(self, b, base, size, signed, count, n):
        """the numbers stored in b from base on"""
        s = seqth(z3.IntSort())
        while z3.is_app(b) and b.num_args() == 3 and b.decl().eq(s.slice_):
            base, b = base + b.arg(1), b.arg(0)
        q = self.fresh('unpacked', s.S)
        i = z3.Int('i!')
        self.assume(s.len(q) == count)
        f = self.ext_fn(R.externs['frombytes'])
        self.assumed.add('external function frombytes')
        e = s.idx(q, i)
        lo = base + size * i
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < count), e == f(s.slice(b, lo, lo + size), z3.BoolVal(signed))), patterns=[e]))
        return V(TSeq(INT), q)

    def struct_fmt(self, v, n):
        f = getattr(v, 'fmt', None)
        if f is not None and f[0] in ('{}i', '<{}I', '<{}i', '{}I') and len(f[1]) == 1:
            c = f[0][-1]
            return 4, c == 'i', self.to_int(f[1][0], n)
        l = self.lit_of(v)
        if l == '<2Q':
            return 8, False, z3.IntVal(2)
        raise Unsupported('struct format', n)

    def x_unpack(self, a, kw, n):
        size, signed, count = self.struct_fmt(a[0], n)
        s = seqth(z3.IntSort())
        self.safety(count >= 0, 'error', n)
        self.safety(s.lenof(a[1].z) == size * count, 'error', n)
        return self.unpack_seq(a[1].z, z3.IntVal(0), size, signed, count, n)

    def x_unpack_from(self, a, kw, n):
        size, signed, count = self.struct_fmt(a[0], n)
        s = seqth(z3.IntSort())
        off = self.to_int(a[2], n) if len(a) > 2 else z3.IntVal(0)
        self.safety(count >= 0, 'error', n)
        src = a[1]
        if src.t.k == 'bytes':
            b, base, ln = src.z, z3.IntVal(0), s.lenof(src.z)
        elif src.t.k == 'obj' and src.t.a[0] == 'Mmap':
            b = self.read_field(src, 'data', n).z
            base, ln = z3.IntVal(0), s.lenof(b)
        elif src.t.k == 'obj' and src.t.a[0] == 'View':
            b = self.read_field(self.read_field(src, 'src', n), 'data', n).z
            base, ln = self.read_field(src, 'base', n).z, self.read_field(src, 'n', n).z
            self.safety(self.read_field(src, 'item', n).z == 1, 'unsupported', n)
        else:
            raise Unsupported('unpack_from %s' % src.t, n)
        self.safety(z3.And(0 <= off, off + size * count <= ln), 'error', n)
        return self.unpack_seq(b, base + off, size, signed, count, n)

    def b_memoryview(self, a, kw, n):
        v = a[0]
        if v.t.k != 'obj' or v.t.a[0] != 'Mmap':
            raise Unsupported('memoryview of %s' % v.t, n)
        d = self.read_field(v, 'data', n).z
        ci = self.prog.lookup('ghost.io_.View')
        return self.instantiate(ci, [v, self.mk_int(0), V(INT, seqth(z3.IntSort()).lenof(d)), self.mk_int(1), self.mk_int(0), self.mk_int(-1)], {}, n)

    def codec(self, a, kw, n):
        v = a[0] if a else kw.get('encoding')
        if v is None:
            return 'utf8'
        cs = self.lit_chars(v.z)
        nm = ''.join(map(chr, cs)).lower() if cs is not None else None
        m = {'utf-8': 'utf8', 'utf8': 'utf8', 'utf-16-le': 'utf16', 'utf_16_le': 'utf16'}.get(nm)
        if m is None or len(a) > 1 or set(kw) - {'encoding'}:
            raise Unsupported('codec %s' % nm, n)
        return m

    def m_str_encode(self, o, a, kw, n):
        return self.extern_call(R.externs[self.codec(a, kw, n)], [o], n)

    def m_bytes_decode(self, o, a, kw, n):
        nm = self.codec(a, kw, n)
        if not self.spec_mode:
            ok = self.extern_call(R.externs[nm + 'ok'], [o], n)
            self.safety(ok.z, 'UnicodeDecodeError', n)
        return self.extern_call(R.externs[nm + 'dec'], [o], n)

    def b_disjoint(self, a, kw, n):
        x, y, e = self.set_val(a[0]), self.set_val(a[1]), a[0].t.a[0]
        if e.k == 'enum':
            return V(BOOL, zand([z3.Not(z3.And(z3.Select(x, m), z3.Select(y, m))) for m in self.enum_ids(e)]))
        q = z3.Const('x!', sort_of(e))
        return V(BOOL, z3.ForAll([q], z3.Not(z3.And(z3.Select(x, q), z3.Select(y, q))), patterns=[z3.Select(x, q), z3.Select(y, q)]))

    def m_bytes_join(self, o, a, kw, n):
        r = self.m_str_join(o, a, kw, n)
        return V(BYTES, r.z)

    def m_py_format(self, o, a, kw, n):
        return self.opaque_str(n)

    def call_ext(self, q, args, kw, n):
        h = self.ext_hooks.get(q)
        if h is not None:
            return h(self, args, kw, n)
        if q in R.externs:
            return self.extern_call(R.externs[q], args, n)
        if q.startswith('warnings.') or q.startswith('logging.'):
            return self.mk_none()
        if self.spec_mode == 0 and q.split('.')[-1] in ('Exception',):
            return V(PY, None, ('excval', q))
        raise Unsupported('call of external %s' % q, n)

    ext_hooks = {'struct.unpack': x_unpack, 'struct.unpack_from': x_unpack_from}
