"""Expression evaluation (code and specifications share it; self.spec_mode > 0 selects the total, side-effect free reading)."""
import ast
import z3
from . import theory as th
from .theory import (T, INT, BOOL, NONE, STR, BYTES, PY, TList, TSeq, TSet, TPSet, TDict, TObj, TEnum, TOpt, TTuple, parse_type,
                     sort_of, seqth, is_ref, opt_dt, tup_dt)
from .api import R
from .frontend import FuncInfo, ClassInfo, Module, CTYPE_RANGE
from .sym import (V, TVar, Frame, PathEnd, Restart, Unsupported, PyRaise, ReturnX, BIGINF, intval, zand, zor, zsimp, has_quant, const_names)

BUILTIN_NAMES = {'len', 'range', 'ord', 'chr', 'list', 'set', 'dict', 'tuple', 'int', 'str', 'bool', 'bytes', 'bytearray', 'min', 'max', 'sum',
                 'enumerate', 'zip', 'reversed', 'sorted', 'isinstance', 'all', 'any', 'abs', 'getattr', 'hasattr', 'print', 'super', 'open',
                 'map', 'filter', 'iter', 'next', 'repr', 'type', 'memoryview', 'object', 'divmod', 'round', 'id', 'frozenset', 'float', 'hash'}
SPEC_NAMES = {'implies', 'disjoint', 'iff', 'ite', 'old', 'rep', 'upd', 'emptyset', 'trig', 'unchanged', 'allocated', 'fresh', 'is_in', 'cls_is', 'forall',
              'seqof', 'store', 'same_heap', 'every'}
EXC_NAMES = {'IndexError', 'KeyError', 'ValueError', 'TypeError', 'AttributeError', 'RuntimeError', 'NotImplementedError', 'OverflowError',
             'Exception', 'UnicodeDecodeError', 'UnicodeError', 'LookupError', 'ZeroDivisionError', 'FileNotFoundError', 'OSError', 'IOError',
             'StopIteration', 'AssertionError', 'UnicodeEncodeError', 'EnvironmentError', 'ImportError', 'SyntaxWarning', 'RecursionError', 'ModuleNotFoundError'}
CONSTS = {'INT_MAX': 2**31 - 1, 'INT_MIN': -2**31, 'LLONG_MAX': 2**63 - 1, 'UINT_MAX': 2**32 - 1, 'LONG_MAX': 2**63 - 1, 'SHRT_MAX': 32767}


class It:
    """an iterable seen by a loop: number of items and the item at a symbolic index"""

    def __init__(self, n, at, seq=None, guard=None, st=None):
        self.n, self.at, self.seq, self.guard, self.st = n, at, seq, guard, st


class ExprMixin:

    # ------------------------------------------------------------ entry points
    def ev(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__, n)
        return m(n)

    def evb(self, n):
        """truth value of an expression as a z3 Bool"""
        return self.truth(self.ev(n), n)

    def ev_int(self, n):
        v = self.ev(n)
        return self.to_int(v, n)

    def to_int(self, v, n=None):
        if v.t.k == 'opt':
            v = self.unopt(v, n)
        if v.t.k == 'bool':
            return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
        if v.t.k not in ('int',) and not (self.spec_mode and v.t.k == 'enum'):
            raise Unsupported('integer expected, got %s' % v.t, n)
        return v.z

    # ------------------------------------------------------------ atoms
    def e_Constant(self, n):
        v = n.value
        if v is None:
            return self.mk_none()
        if isinstance(v, bool):
            return self.mk_bool(v)
        if isinstance(v, int):
            return self.mk_int(v)
        if isinstance(v, str):
            r = self.mk_str(v)
            r.py = ('strlit', v)
            return r
        if isinstance(v, bytes):
            return self.mk_bytes(v)
        if isinstance(v, float):
            return V(PY, None, ('float', v))
        raise Unsupported('constant %r' % (v,), n)

    def e_Name(self, n):
        return self.lookup_name(n.id, n)

    def lookup_name(self, name, n=None):
        fr = self.fr
        while fr is not None:
            if name in fr.locals:
                v = fr.locals[name]
                if name in fr.maybe:
                    if self.spec_mode == 0:
                        self.safety(fr.maybe[name], 'UnboundLocalError', n)
                return v
            fr = fr.parent
        if self.spec_mode:
            fr = self.fr
            while fr is not None:
                if fr.globals_ is not None and name in fr.globals_:
                    g = fr.globals_[name]
                    if isinstance(g, (bool, int, str, bytes)):
                        return self.e_Constant(ast.Constant(value=g, lineno=0, col_offset=0))
                    break
                fr = fr.parent
            if name in R.consts:
                return self.e_Constant(ast.Constant(value=R.consts[name], lineno=0, col_offset=0))
            if name in R.specs:
                return V(PY, None, R.specs[name])
            if name in R.lemmas:
                return V(PY, None, R.lemmas[name])
            if name in R.externs:
                return V(PY, None, R.externs[name])
            if name in R.enums:
                return V(PY, None, ('enumcls', name))
            if name in SPEC_NAMES or name in BUILTIN_NAMES:
                return V(PY, None, ('builtin', name))
            if name in R.classes:
                return V(PY, None, ('clsname', name))
            for q in R.globals_:
                if q.endswith('.' + name):
                    m = self.prog.module(q.rsplit('.', 1)[0])
                    return self.const_value(m.consts.get(name) if m is not None else None, m, name)
            if name in ('True', 'False'):
                return self.mk_bool(name == 'True')
        mod = self.fr.mod
        if mod is not None and mod.name.startswith('ghost.'):
            if name in R.specs:
                return V(PY, None, R.specs[name])
            if name in R.externs:
                return V(PY, None, R.externs[name])
        fr = self.fr
        # class-private scope: names of enclosing classes are not visible in Python, only module globals are
        if mod is not None:
            r = self.prog.resolve_name(mod, name)
            if r is not None:
                return self.static_value(r, name, n)
        if name in BUILTIN_NAMES:
            return V(PY, None, ('builtin', name))
        if name in EXC_NAMES:
            return V(PY, None, ('exc', name))
        if name in CONSTS:
            return V(INT, z3.IntVal(CONSTS[name]), ct='c_int')
        if name.startswith('__ccast_'):
            return V(PY, None, ('ccast', name[len('__ccast_'):-2]))
        if name == '__name__':
            return self.mk_str(mod.name if mod else '')
        if self.fr.mod is not None and not self.spec_mode:
            self.safety(z3.BoolVal(False), 'NameError', n)
            if self.spec_mode:
                raise Unsupported('specification expression without a value (an untyped empty list? declare it in locals)', n)
            raise PathEnd()
        raise Unsupported('unknown name %s' % name, n)

    def static_value(self, r, name, n=None):
        if isinstance(r, ClassInfo):
            q = r.qual
            if q in self.enum_of_qual:
                return V(PY, None, ('enumcls', self.enum_of_qual[q]))
            return V(PY, None, r)
        if isinstance(r, (FuncInfo, Module)):
            return V(PY, None, r)
        if r[0] == 'const':
            return self.const_value(r[1], r[2], name)
        if r[0] == 'ext':
            if r[1] in R.models:
                t = self.prog.lookup(R.models[r[1]])
                if t is None:
                    raise Unsupported('model for %s missing' % r[1], n)
                self.assumed.add('model of %s: %s' % (r[1], R.models[r[1]]))
                return V(PY, None, t)
            return V(PY, None, ('ext', r[1]))
        raise Unsupported('static %r' % (r,), n)

    def const_value(self, expr, mod, name, cls=None):
        key = ('modconst', mod.name, cls.qual if cls else None, name)
        gl = R.globals_.get((cls.qual + '.' if cls else mod.name + '.') + name)
        if gl is not None:      # declared global object (immutable reference)
            nm = 'G.' + name
            v = V(parse_type(gl), z3.Const(nm, sort_of(parse_type(gl))))
            if is_ref(v.t):
                self.assume(z3.And(v.z > 0, v.z < self.alloc0), top=True)
            return v
        c = self.statics.get(key)
        if c is not None:
            return c
        if isinstance(expr, ast.Dict) or (isinstance(expr, ast.DictComp)):
            v = self.static_dict(expr, mod, cls)
        elif isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id == 'Enum':
            q = (cls.qual + '.' if cls else mod.name + '.') + name
            if q in self.enum_of_qual:
                v = V(PY, None, ('enumcls', self.enum_of_qual[q]))
            else:
                raise Unsupported('undeclared enum %s' % q)
        elif isinstance(expr, (ast.List, ast.Set)) or (isinstance(expr, ast.Call) and ast.unparse(expr.func) in ('set', 'frozenset', 'list')):
            items = expr.elts if not isinstance(expr, ast.Call) else (expr.args[0].elts if expr.args and hasattr(expr.args[0], 'elts') else None)
            if items is None:
                raise Unsupported('module constant %s' % name)
            vs = [self.in_module(mod, x, cls) for x in items]
            v = V(T('tuple', *[x.t for x in vs]), None, py=vs)
        else:
            v = self.in_module(mod, expr, cls)
        self.statics[key] = v
        return v

    def in_module(self, mod, expr, cls=None):
        fr = Frame(None, mod, cls, 'module:' + mod.name)
        fr.maybe = {}
        old, self.fr = self.fr, fr
        # names of the class body are visible while its constants are evaluated
        if cls is not None:
            for k, e in cls.consts.items():
                if e is expr:
                    break
                if k in const_free_names(expr):
                    fr.locals[k] = self.const_value(e, mod, k, cls)
        try:
            return self.ev(expr)
        finally:
            self.fr = old

    def static_dict(self, expr, mod, cls):
        if isinstance(expr, ast.DictComp):
            raise Unsupported('dict comprehension constant')
        items = []
        for k, v in zip(expr.keys, expr.values):
            items.append((self.in_module(mod, k, cls), self.in_module(mod, v, cls)))
        return V(PY, None, ('sdict', items))

    # ------------------------------------------------------------ containers
    def site(self, n):
        return (self.fr.key, n.lineno, n.col_offset)

    def e_List(self, n):
        vs = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                raise Unsupported('starred list display', n)
            vs.append(self.ev(x))
        return self.list_of(vs, n)

    def list_of(self, vs, n):
        if self.spec_mode or self.qvars:
            if not vs:
                return V(TTuple(), None, py=[])
            t = vs[0].t
            for x in vs[1:]:
                t = self.join_type(t, x.t)
            vs = [self.coerce(x, t, n) for x in vs]
            return V(TSeq(t), seqth(sort_of(t)).lit([self.tz(x) for x in vs]))
        if not vs:
            site = self.site(n)
            t = self.elemtypes.get(site)
            if t is None:
                return V(TList(TVar(site)), self.new_ref())
            return self.new_list(t, seqth(sort_of(t)).empty)
        t = vs[0].t
        for x in vs[1:]:
            t = self.join_type(t, x.t)
        site = self.site(n)
        if ('lit',) + site in self.elemtypes:
            t = self.join_type(t, self.elemtypes[('lit',) + site])
        if t.k == 'list' and t.a[0].k == 'tvar':
            et = self.elemtypes.get(t.a[0].a[0])
            if et is None:
                raise Unsupported('cannot infer element type of nested list', n)
            t = TList(et)
        vs = [self.coerce(x, t, n) for x in vs]
        return self.new_list(t, seqth(sort_of(t)).lit([self.tz(x) for x in vs]))

    def e_Tuple(self, n):
        return self.mk_tuple([self.ev(x) for x in n.elts])

    def e_Set(self, n):
        vs = [self.ev(x) for x in n.elts]
        t = vs[0].t
        s = z3.K(sort_of(t), z3.BoolVal(False))
        for x in vs:
            s = z3.Store(s, self.tz(self.coerce(x, t, n)), z3.BoolVal(True))
        return self.new_set(t, s)

    def new_set(self, t, s):
        if self.spec_mode or self.qvars:
            return V(TPSet(t), s)
        r = self.new_ref()
        key = ('S', str(t))
        a = self.harr(key)
        self.assume(self.rd(a, r) == s)
        return V(TSet(t), r)

    def e_Dict(self, n):
        if self.spec_mode:
            return V(PY, None, ('sdict', [(self.ev(k), self.ev(v)) for k, v in zip(n.keys, n.values)]))
        items = [(self.ev(k), self.ev(v)) for k, v in zip(n.keys, n.values)]
        site = self.site(n)
        t = self.elemtypes.get(site)
        if not items and t is None:
            return V(TDict(TVar(site), TVar(site)), self.new_ref())
        if t is None:
            kt, vt = items[0][0].t, items[0][1].t
            for k, v in items[1:]:
                kt, vt = self.join_type(kt, k.t), self.join_type(vt, v.t)
            t = TDict(kt, vt)
        return self.new_dict(t, [(self.coerce(k, t.a[0], n), self.coerce(v, t.a[1], n)) for k, v in items])

    def new_dict(self, t, items=()):
        kt, vt = t.a
        dt = sort_of(T('pmap', kt, vt))
        dom = z3.K(sort_of(kt), z3.BoolVal(False))
        r = self.new_ref()
        val = self.fresh('dictval', z3.ArraySort(sort_of(kt), sort_of(vt)))
        for k, v in items:
            dom = z3.Store(dom, self.tz(k), z3.BoolVal(True))
            val = z3.Store(val, self.tz(k), self.tz(v))
        key = ('D', str(kt), str(vt))
        c = dt.constructor(0)(dom, val)
        a = self.harr(key)
        self.assume(self.rd(a, r) == c)
        self.prophecy(key, r, c)
        return V(t, r)

    def e_JoinedStr(self, n):
        if self.spec_mode:
            raise Unsupported('f-string in spec', n)
        return self.opaque_str(n)

    def opaque_str(self, n):
        return V(STR, self.fresh('fmt@%d' % n.lineno, sort_of(STR)))

    # ------------------------------------------------------------ operators
    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return V(BOOL, z3.Not(self.evb(n.operand)))
        v = self.ev(n.operand)
        if v.t.k == 'py' and v.py[0] == 'float':
            return V(PY, None, ('float', -v.py[1]))
        x = self.to_int(v, n)
        if isinstance(n.op, ast.USub):
            return V(INT, zsimp(-x) if z3.is_int_value(x) else -x, ct=v.ct)
        if isinstance(n.op, ast.UAdd):
            return V(INT, x)
        if isinstance(n.op, ast.Invert):
            return V(INT, -x - 1)
        raise Unsupported('unary', n)

    def e_BoolOp(self, n):
        vals = n.values
        if self.spec_mode or all(self.simple(x) for x in vals[1:]):
            u = None
            # value semantics: when all operands are bool the result is a bool, otherwise an operand
            first = self.ev(vals[0])
            out = first
            scope = 0
            for x in vals[1:]:
                c = self.truth(out, n)
                # operands to the right are evaluated under the short-circuit condition
                cond = c if isinstance(n.op, ast.And) else z3.Not(c)
                d = self.decide(cond) if not self.spec_mode else None
                if d is False:
                    break
                self.push_guard(cond)
                try:
                    w = self.ev(x)
                    wb = self.truth(w, n)
                finally:
                    self.pop_guard()
                if out.t.k == 'bool' and w.t.k == 'bool':
                    out = V(BOOL, z3.And(c, wb) if isinstance(n.op, ast.And) else z3.Or(c, wb))
                else:
                    left = out
                    if isinstance(n.op, ast.Or) and left.t.k == 'opt':
                        left = self.unopt_total(left)
                    try:
                        if isinstance(n.op, ast.And):
                            out = self.ite(c, w, left, n)
                        else:
                            out = self.ite(c, left, w, n)
                    except Unsupported:
                        out = V(BOOL, z3.And(c, wb) if isinstance(n.op, ast.And) else z3.Or(c, wb))
            return out
        # operands with calls etc: fork
        for i, x in enumerate(vals):
            v = self.ev(x)
            if i == len(vals) - 1:
                return v
            c = self.truth(v, n)
            if isinstance(n.op, ast.And):
                if self.choose([c, z3.Not(c)]) == 1:
                    return v if v.t.k != 'opt' else v
            else:
                if self.choose([z3.Not(c), c]) == 1:
                    if v.t.k == 'opt':
                        self.spec_mode += 1
                        try:
                            return self.unopt(v)
                        finally:
                            self.spec_mode -= 1
                    return v

    def push_guard(self, cond):
        self.guards.append(cond)
        self.gs.push()
        if not has_quant(cond):
            self.gs.add(zsimp(cond))
        self.qscope.append((None, cond, []))

    def pop_guard(self):
        self.guards.pop()
        _, cond, fs = self.qscope.pop()
        self.gs.pop()
        for f in fs:
            self.assume(z3.Implies(cond, f))

    def simple(self, n):
        """evaluation can neither branch, raise a handled exception nor change the heap"""
        for x in ast.walk(n):
            if isinstance(x, (ast.Call, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.IfExp, ast.List, ast.Set, ast.Dict, ast.Await,
                              ast.Yield, ast.NamedExpr)):
                return False
            if isinstance(x, (ast.Subscript,)) and self.any_handlers():
                return False
            if isinstance(x, ast.Attribute) and not self.plain_attr(x):
                return False
        return True

    def any_handlers(self):
        return any(fr.handlers or fr.raises for fr in self.inline_stack)

    def plain_attr(self, x):
        return True

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            res.append(self.compare(op, left, right, n))
            left = right
        return V(BOOL, zand(res))

    def compare(self, op, a, b, n):
        if isinstance(op, ast.Eq):
            return self.equal(a, b, n)
        if isinstance(op, ast.NotEq):
            return z3.Not(self.equal(a, b, n))
        if isinstance(op, ast.Is):
            return self.identical(a, b, n)
        if isinstance(op, ast.IsNot):
            return z3.Not(self.identical(a, b, n))
        if isinstance(op, ast.In):
            return self.contains(b, a, n)
        if isinstance(op, ast.NotIn):
            return z3.Not(self.contains(b, a, n))
        inf = None
        for x in (a, b):
            if x.t.k == 'py' and isinstance(x.py, tuple) and x.py[0] == 'float':
                inf = x
        if inf is not None:
            def conv(x):
                if x.t.k == 'py':
                    f = x.py[1]
                    if f in (float('inf'), float('-inf')):
                        return z3.IntVal(BIGINF if f > 0 else -BIGINF)
                    if f == int(f):
                        return z3.IntVal(int(f))
                    raise Unsupported('float', n)
                return self.to_int(x, n)
            x, y = conv(a), conv(b)
        elif a.t.k in ('str', 'bytes') and b.t.k in ('str', 'bytes'):
            return self.seq_less(op, a, b, n)
        elif a.t.k in ('set', 'pset') and b.t.k in ('set', 'pset'):
            raise Unsupported('set comparison', n)
        else:
            x, y = self.to_int(a, n), self.to_int(b, n)
        return x < y if isinstance(op, ast.Lt) else x <= y if isinstance(op, ast.LtE) else x > y if isinstance(op, ast.Gt) else x >= y

    def seq_less(self, op, a, b, n):
        s = seqth(z3.IntSort())
        lt = z3.Function('strlt', s.S, s.S, z3.BoolSort())
        if a.z.decl().eq(s.single_) and b.z.decl().eq(s.single_):
            x, y = a.z.arg(0), b.z.arg(0)
            return x < y if isinstance(op, ast.Lt) else x <= y if isinstance(op, ast.LtE) else x > y if isinstance(op, ast.Gt) else x >= y
        if isinstance(op, ast.Lt):
            return lt(a.z, b.z)
        if isinstance(op, ast.Gt):
            return lt(b.z, a.z)
        if isinstance(op, ast.LtE):
            return z3.Not(lt(b.z, a.z))
        return z3.Not(lt(a.z, b.z))

    def contains(self, c, x, n):
        k = c.t.k
        if k == 'py' and isinstance(c.py, tuple) and c.py[0] == 'sdict':
            return zor([self.equal(x, kk, n) for kk, _ in c.py[1]])
        if k == 'py' and isinstance(c.py, tuple) and c.py[0] == 'dictview':
            return self.contains(c.py[1], x, n)
        if k == 'opt':
            return self.contains(self.unopt(c, n), x, n)
        if k == 'tuple':
            return zor([self.equal(x, y, n) for y in self.tuple_items(c)])
        if k in ('set', 'pset'):
            if k == 'set' and c.t.a[0].k == 'tvar':
                t = self.elemtypes.get(c.t.a[0].a[0])
                if t is None:
                    return z3.BoolVal(False)
                c = V(t, c.z)
            if x.t.k == 'opt' and c.t.a[0].k != 'opt':
                x = self.unopt_total(x)
            return z3.Select(self.set_val(c), self.tz(self.coerce(x, c.t.a[0], n)))
        if k == 'dict':
            if c.t.a[0].k == 'tvar' and self.elemtypes.get(c.t.a[0].a[0]) is None:
                return z3.BoolVal(False)
            kt, vt = self.dtypes(c)
            if x.t.k == 'opt' and kt.k != 'opt':
                xx = self.unopt_total(x)
                return z3.And(z3.Not(self.is_none(x)), z3.Select(self.dict_parts(c)[0], self.tz(self.coerce(xx, kt, n))))
            return z3.Select(self.dict_parts(c)[0], self.tz(self.coerce(x, kt, n)))
        if k == 'json':
            return self.contains(self.coerce(c, STR, n), x, n)
        if k == 'str':
            if x.t.k != 'str':
                self.safety(z3.BoolVal(False), 'TypeError', n)
                if self.spec_mode:
                    raise Unsupported('specification expression without a value (an untyped empty list? declare it in locals)', n)
                raise PathEnd()
            s = seqth(z3.IntSort())
            if x.z.decl().eq(s.single_):
                lv = self.lit_chars(c.z)
                if lv is not None:
                    return zor([x.z.arg(0) == z3.IntVal(o) for o in lv])
                return s.has(c.z, x.z.arg(0))
            lv = self.lit_chars(c.z)
            if lv is not None and self.decide(s.lenof(x.z) == 1) is True:
                return zor([s.at(x.z, z3.IntVal(0)) == o for o in lv])
            f = z3.Function('ext.str.contains', s.S, s.S, z3.BoolSort())
            return f(c.z, x.z)
        if k == 'bytes' and x.t.k in ('int',):
            return seqth(z3.IntSort()).has(c.z, x.z)
        if k in ('list', 'seq'):
            if k == 'list' and c.t.a[0].k == 'tvar' and self.elemtypes.get(c.t.a[0].a[0]) is None:
                return z3.BoolVal(False)
            q, e = self.as_seq(c)
            if x.t.k == 'tuple' or e.k == 'tuple':
                x = self.coerce(x, e, n)
                return seqth(sort_of(e)).has(q, self.tz(x))
            if x.t.k == 'none' and e.k != 'opt':
                return z3.BoolVal(False)
            x = self.coerce(x, e, n)
            if e.k == 'list':
                i = z3.Int(self.fresh_name('i?'))
                it = self.q_exists(i, z3.And(0 <= i, i < seqth(sort_of(e)).lenof(q)),
                                   self.equal(V(e, seqth(sort_of(e)).idx(q, i)), x))
                return it
            return seqth(sort_of(e)).has(q, self.tz(x))
        if k == 'obj':
            c2 = R.classes.get(c.t.a[0])
            ci = self.prog.lookup(c2.qual)
            f = self.find_method(ci, '__contains__')
            if f is not None:
                return self.truth(self.call_function(f, [c, x], {}, n))
        raise Unsupported('in on %s' % c.t, n)

    def unopt_total(self, v):
        self.spec_mode += 1
        try:
            return self.unopt(v)
        finally:
            self.spec_mode -= 1

    def lit_chars(self, z):
        s = seqth(z3.IntSort())
        lv = th.LITS_REV.get(z.get_id())
        if lv is not None:
            return lv
        if z.decl().eq(s.single_) and z3.is_int_value(z.arg(0)):
            return (z.arg(0).as_long(),)
        if z.decl().eq(s.empty.decl()):
            return ()
        return None

    def e_IfExp(self, n):
        c = self.evb(n.test)
        if self.spec_mode or self.qvars:
            d = self.decide(c)
            if d is True:
                return self.ev(n.body)
            if d is False:
                return self.ev(n.orelse)
            self.push_guard(c)
            try:
                a = self.ev(n.body)
            finally:
                self.pop_guard()
            self.push_guard(z3.Not(c))
            try:
                b = self.ev(n.orelse)
            finally:
                self.pop_guard()
            return self.ite(c, a, b, n)
        if self.choose([c, z3.Not(c)]) == 0:
            return self.ev(n.body)
        return self.ev(n.orelse)

    def ite(self, c, a, b, n=None):
        c = zsimp(c)
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a.t.k in ('list', 'seq') and b.t.k == 'tuple' and not b.t.a:
            a = V(TSeq(self.as_seq(a)[1]), self.as_seq(a)[0])
        if b.t.k in ('list', 'seq') and a.t.k == 'tuple' and not a.t.a:
            b = V(TSeq(self.as_seq(b)[1]), self.as_seq(b)[0])
        if a.t.k == 'tuple' and not a.t.a and b.t.k == 'seq':
            a = V(b.t, seqth(sort_of(b.t.a[0])).empty)
        if b.t.k == 'tuple' and not b.t.a and a.t.k == 'seq':
            b = V(a.t, seqth(sort_of(a.t.a[0])).empty)
        if a.t.k == 'seq' and b.t.k == 'list':
            b = V(a.t, self.as_seq(b)[0])
        if b.t.k == 'seq' and a.t.k == 'list':
            a = V(b.t, self.as_seq(a)[0])
        if a.t.k == 'tuple' and b.t.k == 'tuple' and len(a.t.a) == len(b.t.a):
            return self.mk_tuple([self.ite(c, x, y) for x, y in zip(self.tuple_items(a), self.tuple_items(b))])
        t = self.join_type(a.t, b.t)
        a, b = self.coerce(a, t, n), self.coerce(b, t, n)
        return V(t, z3.If(c, self.tz(a), self.tz(b)))

    def crange(self, ct, z, n, what='overflow'):
        """obligation: the value fits the C type"""
        if self.spec_mode or ct not in CTYPE_RANGE:
            return
        lo, hi = CTYPE_RANGE[ct]
        self.oblige(z3.And(z >= lo, z <= hi), 'c-range(%s)' % ct, n, self.short(n))

    def e_BinOp(self, n):
        op = n.op
        if isinstance(op, ast.MatMult) and isinstance(n.left, ast.Name) and n.left.id.startswith('__ccast_'):
            ct = n.left.id[len('__ccast_'):-2]
            v = self.ev(n.right)
            return self.to_ctype(v, ct, n)
        a, b = self.ev(n.left), self.ev(n.right)
        return self.binop(op, a, b, n)

    def binop(self, op, a, b, n):
        if a.t.k == 'opt':
            a = self.unopt(a, n)
        if b.t.k == 'opt':
            b = self.unopt(b, n)
        ka, kb = a.t.k, b.t.k
        if ka == 'obj' and isinstance(op, ast.Div):
            return self.call_value(self.getattr(a, '__truediv__', n), [b], {}, n)
        if ka == 'obj' or kb == 'obj':
            raise Unsupported('operator on object', n)
        if isinstance(op, ast.Mod) and ka == 'str':
            return self.opaque_str(n)
        if isinstance(op, ast.Add) and (ka in ('str', 'bytes', 'list', 'seq', 'tuple')):
            if ka == 'tuple' and kb == 'tuple':
                return self.mk_tuple(self.tuple_items(a) + self.tuple_items(b))
            if ka in ('str', 'bytes'):
                if kb != ka and not (self.spec_mode and kb == 'seq'):
                    self.safety(z3.BoolVal(False), 'TypeError', n)
                    if self.spec_mode:
                        raise Unsupported('specification expression without a value (an untyped empty list? declare it in locals)', n)
                    raise PathEnd()
                return V(a.t, self.th_of(a).cat(a.z, b.z))
            if ka == 'tuple' and not a.t.a:
                return b
            if kb == 'tuple' and not b.t.a:
                return a
            (x, e), (y, e2) = self.as_seq(a), self.as_seq(b)
            r = seqth(sort_of(e)).cat(x, y)
            if ka == 'seq' or kb == 'seq' or self.spec_mode:
                return V(TSeq(e), r)
            return self.new_list(e, r)
        if isinstance(op, ast.Mult) and (ka in ('str', 'bytes', 'list', 'seq') or kb in ('str', 'bytes', 'list', 'seq')):
            if ka == 'int':
                a, b, ka, kb = b, a, kb, ka
            cnt = self.to_int(b, n)
            s, e = (a.z, INT) if ka in ('str', 'bytes') else self.as_seq(a)
            tt = seqth(sort_of(e)) if ka not in ('str', 'bytes') else seqth(z3.IntSort())
            ln = intval(tt.lenof(s))
            if ln == 1:
                r = tt.rep(tt.at(s, z3.IntVal(0)), cnt)
            elif ln == 0:
                r = tt.empty
            else:
                raise Unsupported('repetition of a longer sequence', n)
            if ka in ('str', 'bytes', 'seq') or self.spec_mode:
                return V(a.t if ka != 'list' else TSeq(e), r)
            return self.new_list(e, r)
        if ka in ('set', 'pset') and kb in ('set', 'pset'):
            x, y = self.set_val(a), self.set_val(b)
            e = a.t.a[0]
            if isinstance(op, ast.BitAnd):
                r = z3.SetIntersect(x, y)
            elif isinstance(op, ast.BitOr):
                r = z3.SetUnion(x, y)
            elif isinstance(op, ast.Sub):
                r = z3.SetDifference(x, y)
            else:
                raise Unsupported('set operator', n)
            return self.new_set(e, self.set_term(r, e))
        x, y = self.to_int(a, n), self.to_int(b, n)
        ct = None
        if a.ct and b.ct:
            ct = a.ct if CTYPE_RANGE.get(a.ct, (0, 0))[1] >= CTYPE_RANGE.get(b.ct, (0, 0))[1] else b.ct
            if CTYPE_RANGE.get(ct, (0, 0))[1] < 2**31 - 1:
                ct = 'c_int'
        elif a.ct and b.ct is None and z3.is_int_value(y):
            ct = a.ct if -2**31 <= y.as_long() < 2**31 else None
            if ct in ('c_short', 'c_ushort', 'c_char'):
                ct = 'c_int'
        if isinstance(op, ast.Add):
            r = x + y
        elif isinstance(op, ast.Sub):
            r = x - y
        elif isinstance(op, ast.Mult):
            r = x * y
        elif isinstance(op, ast.FloorDiv):
            return V(INT, self.floordiv(x, y, n), ct=ct)
        elif isinstance(op, ast.Mod):
            return V(INT, self.floormod(x, y, n), ct=ct)
        elif isinstance(op, ast.Pow):
            xv, yv = intval(x), intval(y)
            if xv is not None and yv is not None and yv >= 0:
                return self.mk_int(xv ** yv)
            return V(INT, z3.Function('ipow', z3.IntSort(), z3.IntSort(), z3.IntSort())(x, y))
        elif isinstance(op, ast.LShift):
            r = th.shl(x, y)
        elif isinstance(op, ast.RShift):
            return V(INT, th.shr(x, y), ct=ct)
        elif isinstance(op, ast.BitAnd):
            if ka == 'bool' and kb == 'bool':
                return V(BOOL, z3.And(a.z, b.z))
            return V(INT, th.band(x, y), ct=ct)
        elif isinstance(op, ast.BitOr):
            if ka == 'bool' and kb == 'bool':
                return V(BOOL, z3.Or(a.z, b.z))
            return V(INT, th.bor(x, y), ct=ct)
        else:
            raise Unsupported('operator %s' % type(op).__name__, n)
        if z3.is_int_value(x) and z3.is_int_value(y):
            r = zsimp(r)
        if ct:
            if isinstance(op, ast.LShift) and ct in ('c_uint', 'c_ulong', 'c_ullong'):
                r = r % (CTYPE_RANGE[ct][1] + 1)
            else:
                self.crange(ct, r, n)
        return V(INT, r, ct=ct)

    def set_term(self, r, e):
        """sets are arrays; combine via a fresh constant with pointwise facts usable by E-matching"""
        return r

    def floordiv(self, x, y, n):
        yv = intval(y)
        if yv is not None and yv > 0:
            return x / y
        self.safety(y != 0, 'ZeroDivisionError', n)
        if self.decide(y > 0) is True:
            return x / y
        return z3.If(y > 0, x / y, (-x) / (-y))

    def floormod(self, x, y, n):
        yv = intval(y)
        if yv is not None and yv > 0:
            return x % y
        self.safety(y != 0, 'ZeroDivisionError', n)
        if self.decide(y > 0) is True:
            return x % y
        return x - y * self.floordiv(x, y, n)

    def to_ctype(self, v, ct, n):
        if ct == 'c_bint':
            return V(BOOL, self.truth(v, n))
        if ct in CTYPE_RANGE:
            z = self.to_int(v, n)
            lo, hi = CTYPE_RANGE[ct]
            if not self.spec_mode:
                if v.ct is None:
                    self.safety(z3.And(z >= lo, z <= hi), 'OverflowError', n)
                else:
                    self.oblige(z3.And(z >= lo, z <= hi), 'c-range(%s)' % ct, n, self.short(n))
            return V(INT, z, ct=ct)
        return v

    # ------------------------------------------------------------ subscripts
    def norm_index(self, i, ln, exc, n):
        """Python index (possibly negative) -> position, with the range check"""
        iv = intval(i)
        if iv is not None:
            p = i if iv >= 0 else zsimp(ln + i)
        elif self.decide(i >= 0) is True:
            p = i
        elif self.spec_mode:
            return i
        elif self.decide(i < 0) is True:
            p = ln + i
        else:
            p = z3.If(i < 0, i + ln, i)
            self.safety(z3.And(0 <= p, p < ln), exc, n)
            if self.decide(i >= 0) is True:
                return i
            return p if self.qvars else self.atom(p)
        self.safety(z3.And(0 <= p, p < ln), exc, n)
        return p

    def norm_slice(self, v, ln, n):
        """clamp a slice bound to 0..ln as Python does"""
        x = self.to_int(v, n)
        xv = intval(x)
        if xv == 0:
            return x
        if self.spec_mode:
            if xv is not None and xv < 0:
                return ln + x
            return x
        if xv is not None and xv < 0:
            y = ln + x
            return y if self.decide(y >= 0) is True else z3.If(y < 0, z3.IntVal(0), y)
        lo = self.decide(x >= 0)
        hi = self.decide(x <= ln)
        if lo is True and hi is True:
            return x
        if lo is True:
            return z3.If(x > ln, ln, x)
        y = z3.If(x < 0, z3.If(x + ln < 0, z3.IntVal(0), x + ln), z3.If(x > ln, ln, x))
        return y

    def slice_bounds(self, sl, ln, n):
        if sl.step is not None:
            raise Unsupported('slice step', n)
        lo = self.norm_slice(self.ev(sl.lower), ln, n) if sl.lower is not None else z3.IntVal(0)
        hi = self.norm_slice(self.ev(sl.upper), ln, n) if sl.upper is not None else ln
        if not self.spec_mode and self.decide(lo <= hi) is not True:
            hi = z3.If(hi < lo, lo, hi)
        if not self.spec_mode and not self.qvars:
            lo, hi = self.atom(lo), self.atom(hi)
        return lo, hi

    def e_Subscript(self, n):
        v = self.ev(n.value)
        if v.t.k == 'opt':
            v = self.unopt(v, n)
        if isinstance(n.slice, ast.Slice):
            if v.t.k == 'tuple':
                items = self.tuple_items(v)
                lo = intval(self.ev_int(n.slice.lower)) if n.slice.lower else None
                hi = intval(self.ev_int(n.slice.upper)) if n.slice.upper else None
                return self.mk_tuple(items[lo:hi])
            if v.t.k == 'obj':
                return self.obj_getitem_slice(v, n)
            if n.slice.step is not None and ast.unparse(n.slice.step) == '-1' and n.slice.lower is None and n.slice.upper is None:
                return self.reverse(v, n)
            s, e = self.as_seq(v, n)
            tt = th.seq_of_term(s)
            lo, hi = self.slice_bounds(n.slice, tt.lenof(s), n)
            r = tt.slice(s, lo, hi)
            if v.t.k == 'list' and not self.spec_mode:
                return self.new_list(e, r)
            return V(TSeq(e) if v.t.k == 'list' else v.t, r)
        i = self.ev(n.slice)
        return self.getitem(v, i, n)

    def getitem(self, v, i, n):
        k = v.t.k
        if k == 'tuple':
            items = self.tuple_items(v)
            iv = intval(self.to_int(i, n))
            if iv is not None:
                if not -len(items) <= iv < len(items):
                    self.safety(z3.BoolVal(False), 'IndexError', n)
                    if self.spec_mode:
                        raise Unsupported('specification expression without a value (an untyped empty list? declare it in locals)', n)
                    raise PathEnd()
                return items[iv]
            s, e = self.as_seq(v)
            p = self.norm_index(self.to_int(i, n), z3.IntVal(len(items)), 'IndexError', n)
            return V(e, seqth(sort_of(e)).idx(s, p))
        if k in ('str', 'bytes', 'list', 'seq'):
            if k == 'list' and v.t.a[0].k == 'tvar' and self.elemtypes.get(v.t.a[0].a[0]) is None:
                self.safety(z3.BoolVal(False), 'IndexError', n)
                if self.spec_mode:
                    raise Unsupported('specification expression without a value (an untyped empty list? declare it in locals)', n)
                raise PathEnd()
            s, e = self.as_seq(v, n)
            tt = th.seq_of_term(s)
            p = self.norm_index(self.to_int(i, n), tt.lenof(s), 'IndexError', n)
            x = tt.at(s, p)
            if k == 'str':
                if not self.spec_mode and not self.qvars:
                    self.assume(z3.And(x >= 0, x < 0x110000))
                return V(STR, tt.single_(x))
            if k == 'bytes':
                if not self.spec_mode and not self.qvars:
                    self.assume(z3.And(x >= 0, x < 256))
                return V(INT, x)
            r = V(e, x)
            if not self.spec_mode:
                self.assume(self.type_facts(r))
            return r
        if k == 'dict':
            kt, vt = self.dtypes(v)
            dom, val = self.dict_parts(v)
            kz = self.tz(self.coerce(i, kt, n))
            dflt = self.defaultdicts.get(v.z.get_id()) if hasattr(self, 'defaultdicts') else None
            self.safety(z3.Select(dom, kz), 'KeyError', n)
            r = V(vt, z3.Select(val, kz))
            if not self.spec_mode:
                self.assume(self.type_facts(r))
            return r
        if k == 'py' and isinstance(v.py, tuple) and v.py[0] == 'sdict':
            self.safety(self.contains(v, i, n), 'KeyError', n)
            return self.sdict_get(v, i, n)
        if k == 'obj':
            c = R.classes.get(v.t.a[0])
            if c is not None and c.qual:
                if i.t.k == 'tuple' and len(i.t.a) == 2:
                    f = self.find_method(self.prog.lookup(c.qual), 'getitem2')
                    if f is not None:
                        return self.call_function(f, [v] + list(self.tuple_items(i)), {}, n)
                f = self.find_method(self.prog.lookup(c.qual), '__getitem__')
                if f is not None:
                    return self.call_function(f, [v, i], {}, n)
            return self.ext_getitem(v, i, n)
        raise Unsupported('subscript of %s' % v.t, n)

    def ext_getitem(self, v, i, n):
        # memory view: class with fields data (seq), shape0, shape1
        if v.t.a[0] == 'MemView2':
            if i.t.k != 'tuple' or len(i.t.a) != 2:
                raise Unsupported('memory view index', n)
            a, b = [self.to_int(x, n) for x in self.tuple_items(i)]
            d0 = self.read_field(v, 'd0', n).z
            d1 = self.read_field(v, 'd1', n).z
            data = self.read_field(v, 'data', n).z
            self.safety(z3.And(-d0 <= a, a < d0, -d1 <= b, b < d1), 'IndexError', n)
            if self.decide(z3.And(a >= 0, b >= 0)) is not True:
                a = z3.If(a < 0, a + d0, a)
                b = z3.If(b < 0, b + d1, b)
            x = seqth(z3.IntSort()).idx(data, a * d1 + b)
            if not self.spec_mode:
                self.assume(z3.And(x >= -32768, x <= 32767))
            return V(INT, x, ct='c_short')
        raise Unsupported('subscript of %s' % v.t, n)

    def obj_getitem_slice(self, v, n):
        c = R.classes.get(v.t.a[0])
        f = self.find_method(self.prog.lookup(c.qual), 'getslice') if c is not None and c.qual else None
        if f is None or n.slice.step is not None:
            raise Unsupported('slice of %s' % v.t, n)
        lo = V(INT, self.ev_int(n.slice.lower)) if n.slice.lower is not None else self.mk_int(0)
        if n.slice.upper is not None:
            hi = V(INT, self.ev_int(n.slice.upper))
        elif v.t.a[0] == 'View':
            hi = self.read_field(v, 'n', n)
        else:
            hi = V(INT, th.seq_of_term(self.read_field(v, 'data', n).z).lenof(self.read_field(v, 'data', n).z))
        return self.call_function(f, [v, lo, hi], {}, n)

    def sdict_get(self, d, i, n, default=None):
        items = d.py[1]
        t = items[0][1].t
        for _, x in items[1:]:
            t = self.join_type(t, x.t)
        if default is not None:
            t = self.join_type(t, default.t)
        if t.k == 'py':
            raise Unsupported('static dict of static values', n)
        r = self.tz(self.coerce(default, t)) if default is not None else self.tz(self.coerce(items[-1][1], t))
        for kk, vv in reversed(items):
            r = z3.If(self.equal(i, kk, n), self.tz(self.coerce(vv, t)), r)
        return V(t, r)

    def reverse(self, v, n):
        s, e = self.as_seq(v, n)
        tt = th.seq_of_term(s)
        r = self.fresh('rev', tt.S)
        ln = tt.lenof(s)
        self.assume(tt.len(r) == ln)
        i = z3.Int('i!')
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), tt.idx(r, i) == tt.idx(s, ln - 1 - i)), patterns=[tt.idx(r, i)]))
        if v.t.k == 'list' and not self.spec_mode:
            return self.new_list(e, r)
        return V(v.t if v.t.k in ('str', 'bytes', 'seq') else TSeq(e), r)

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, n):
        v = self.ev(n.value)
        return self.getattr(v, n.attr, n)

    def getattr(self, v, name, n):
        if self.fr.cls is not None:
            name = self.fr.cls.mangle(name)
        if v.t.k == 'py':
            return self.static_attr(v, name, n)
        if v.t.k == 'opt':
            v = self.unopt(v, n, 'AttributeError')
        if v.t.k == 'enum':
            if name == 'value':
                return V(PY, None, ('enumvalue', v))
            if name == 'name':
                return V(PY, None, ('enumname', v))
            raise Unsupported('enum attribute %s' % name, n)
        if v.t.k == 'obj':
            cname = v.t.a[0]
            key, ft = self.hkey_field(cname, name)
            if key is None and name.startswith('__'):
                pass
            if key is not None:
                return self.read_field(v, name, n)
            c = R.classes.get(cname)
            if c is None:
                raise Unsupported('undeclared class %s' % cname, n)
            ci = self.prog.lookup(c.qual) if c.qual else None
            if ci is not None:
                f = self.find_method(ci, name)
                if f is not None:
                    if f.kind == 'property':
                        return self.call_function(f, [v], {}, n)
                    if f.kind == 'staticmethod':
                        return V(PY, None, f)
                    if f.kind == 'classmethod':
                        return V(PY, None, ('bound', f, V(PY, None, ci)))
                    return V(PY, None, ('bound', f, v))
                for k in self.prog.mro(ci):
                    if name in k.consts:
                        return self.const_value(k.consts[name], k.mod, name, k)
                    if name in k.inner:
                        return self.static_value(k.inner[name], name, n)
            cm = self.classmodel_method(cname, name)
            if cm is not None:
                return V(PY, None, ('bound', cm, v))
            return V(PY, None, ('method', v, name))
        return V(PY, None, ('method', v, name))

    def classmodel_method(self, cname, name):
        return None

    def read_field(self, v, name, n=None):
        key, ft = self.hkey_field(v.t.a[0], name)
        if key is None:
            raise Unsupported('no field %s in %s' % (name, v.t), n)
        z = self.hread(key, v.z)
        r = V(ft, z)
        ct = self.field_ctype(key)
        if ct in CTYPE_RANGE:
            r.ct = ct
            if not self.spec_mode and not self.qvars:
                lo, hi = CTYPE_RANGE[ct]
                self.assume(z3.And(z >= lo, z <= hi))
        if not self.spec_mode:
            self.assume(self.type_facts(r))
        elif not self.qvars and ft.k in ('obj', 'list', 'set', 'dict'):
            pass
        return r

    def field_ctype(self, key):
        c = R.classes[key[1]]
        if not c.qual:
            return c.ctypes.get(key[2])
        k = ('ct', c.qual)
        ci = self.statics.get(k)
        if ci is None:
            ci = self.prog.lookup(c.qual) or False
            self.statics[k] = ci
        if ci and isinstance(ci, ClassInfo):
            return ci.ctypes.get(key[2])
        return None

    def write_field(self, v, name, val, n=None):
        cname = v.t.a[0]
        if self.fr.cls is not None:
            name = self.fr.cls.mangle(name)
        key, ft = self.hkey_field(cname, name)
        if key is None:
            t = val.t
            if t.k in ('tvar', 'none', 'py') or (t.k in ('list', 'dict', 'set') and t.a[0].k == 'tvar'):
                c = R.classes.get(cname)
                raise Unsupported('undeclared field %s.%s' % (cname, name), n)
            self.elemtypes[('dynfield', cname, name)] = t
            self.restart()
        ct = self.field_ctype(key)
        if ct == 'c_bint':
            val = V(BOOL, self.truth(val, n))
        elif ct in CTYPE_RANGE:
            val = self.to_ctype(val, ct, n)
        val = self.coerce(val, ft, n)
        fr = self.fr
        if fr.ctor is not None and fr.ctor.eq(v.z) and not self.loops_in(fr) and ct is None:
            k = (key, v.z.get_id())
            if k not in self.initset:
                self.initset[k] = v.z
                a = self.harr(key)
                self.assume(self.rd(a, v.z) == self.tz(val))
                return
        self.hwrite(key, v.z, self.tz(val), n)

    def loops_in(self, fr):
        return fr.loops > 0

    def static_attr(self, v, name, n):
        p = v.py
        if isinstance(p, Module):
            r = self.prog.resolve_name(p, name)
            if r is None:
                sub = self.prog.module(p.name + '.' + name)
                if sub is not None:
                    return V(PY, None, sub)
                raise Unsupported('module %s has no %s' % (p.name, name), n)
            return self.static_value(r, name, n)
        if isinstance(p, ClassInfo):
            for k in self.prog.mro(p):
                if name in k.methods:
                    f = k.methods[name]
                    if f.kind == 'classmethod':
                        return V(PY, None, ('bound', f, v))
                    return V(PY, None, f)
                if name in k.inner:
                    return self.static_value(k.inner[name], name, n)
                if name in k.consts:
                    q = k.qual + '.' + name
                    if q in self.enum_of_qual:
                        return V(PY, None, ('enumcls', self.enum_of_qual[q]))
                    return self.const_value(k.consts[name], k.mod, name, k)
            raise Unsupported('class %s has no %s' % (p.qual, name), n)
        if isinstance(p, tuple):
            if p[0] == 'enumcls':
                ms = self.enum_list(p[1])
                if name in ms:
                    return V(TEnum(p[1]), z3.IntVal(ms.index(name)))
                raise Unsupported('enum %s has no member %s' % (p[1], name), n)
            if p[0] == 'ext':
                q = p[1] + '.' + name
                if q in R.models:
                    return V(PY, None, self.prog.lookup(R.models[q]))
                if q in R.consts:
                    return self.mk_int(R.consts[q])
                if q == 'math.inf':
                    return V(PY, None, ('float', float('inf')))
                return V(PY, None, ('ext', q))
            if p[0] == 'clsname':
                c = R.classes[p[1]]
                return self.static_attr(V(PY, None, self.prog.lookup(c.qual)), name, n)
            return V(PY, None, ('method', v, name))
        raise Unsupported('attribute %s of %r' % (name, p), n)

    def find_method(self, ci, name):
        if not isinstance(ci, ClassInfo):
            return None
        for k in self.prog.mro(ci):
            if name in k.methods:
                return k.methods[name]
        return None

    # ------------------------------------------------------------ lambda, comprehensions
    def e_Lambda(self, n):
        return V(PY, None, ('lambda', n, self.fr))

    def iterable(self, v, n):
        """It for a value"""
        if v.t.k == 'opt':
            v = self.unopt(v, n)
        if v.t.k == 'py' and isinstance(v.py, tuple):
            p = v.py
            if p[0] == 'range':
                a, b, st = p[1:]
                if st == 1:
                    cnt = b - a
                    m = zsimp(cnt)
                    if self.spec_mode or self.decide(cnt >= 0) is True:
                        nn = m
                    else:
                        nn = z3.If(b > a, b - a, z3.IntVal(0))
                    return It(nn, lambda k: V(INT, zsimp(a + k) if z3.is_int_value(a) else a + k), None)
                if st < 0:
                    nn = z3.If(a > b, (a - b + (-st - 1)) / (-st), z3.IntVal(0))
                    if st == -1:
                        nn = a - b if self.decide(a >= b) is True else z3.If(a > b, a - b, z3.IntVal(0))
                    return It(nn, lambda k: V(INT, a + k * st), None)
                nn = z3.If(b > a, (b - a + st - 1) / st, z3.IntVal(0))
                return It(nn, lambda k: V(INT, a + k * st), None)
            if p[0] == 'enumerate':
                it = p[1]
                return It(it.n, lambda k: self.mk_tuple([V(INT, zsimp(p[2] + k) if z3.is_int_value(p[2]) and p[2].as_long() else (k if z3.is_int_value(p[2]) else p[2] + k)), it.at(k)]), it.seq, it.guard, it.st)
            if p[0] == 'zip':
                its = p[1]
                nn = its[0].n
                for it in its[1:]:
                    if not nn.eq(it.n):
                        if self.decide(nn <= it.n) is True:
                            continue
                        nn = it.n if self.decide(it.n <= nn) is True else z3.If(it.n < nn, it.n, nn)
                return It(nn, lambda k: self.mk_tuple([it.at(k) for it in its]), its[0].seq)
            if p[0] == 'reversed':
                it = p[1]
                return It(it.n, lambda k: it.at(it.n - 1 - k), it.seq, st=it.st)
            if p[0] == 'map':
                fn, it = p[1], p[2]
                return It(it.n, lambda k: self.call_value(fn, [it.at(k)], {}, n), it.seq)
            if p[0] == 'dictview':
                d, what = p[1], p[2]
                if d.t.k == 'py':
                    items = d.py[1]
                    vs = [self.mk_tuple([a, b]) if what == 'items' else a if what == 'keys' else b for a, b in items]
                    return self.iterable(self.mk_tuple(vs), n)
                kt, vt = self.dtypes(d)
                ks = self.dict_keys(d)
                _, val = self.dict_parts(d)
                tt = seqth(sort_of(kt))

                def at(k):
                    kk = V(kt, tt.idx(ks, k))
                    vv = V(vt, z3.Select(val, tt.idx(ks, k)))
                    if not self.spec_mode:
                        self.assume(self.type_facts(vv))
                    return kk if what == 'keys' else vv if what == 'values' else self.mk_tuple([kk, vv])
                return It(tt.len(ks), at, ks)
            if p[0] == 'sdict':
                return self.iterable(self.mk_tuple([a for a, _ in p[1]]), n)
            if p[0] == 'enumcls':
                ms = self.enum_list(p[1])
                return It(z3.IntVal(len(ms)), lambda k: V(TEnum(p[1]), k), None)
        if v.t.k == 'tuple':
            items = self.tuple_items(v)

            def at(k):
                kv = intval(k)
                if kv is not None:
                    return items[kv]
                s, e = self.as_seq(v)
                return V(e, seqth(sort_of(e)).idx(s, k))
            it = It(z3.IntVal(len(items)), at, None)
            return it
        if v.t.k == 'list' and v.t.a[0].k == 'tvar' and self.elemtypes.get(v.t.a[0].a[0]) is None:
            return It(z3.IntVal(0), lambda k: None, None)
        if v.t.k == 'obj':
            return self.obj_iter(v, n)
        s, e = self.as_seq(v, n)
        tt = th.seq_of_term(s)

        def at(k):
            x = tt.at(s, k)
            if v.t.k == 'str':
                return V(STR, tt.single_(x))
            r = V(e, x)
            if not self.spec_mode:
                self.assume(self.type_facts(r))
            return r
        r = It(tt.lenof(s), at, s, guard=(v if v.t.k == 'list' else None))
        r.st = v.t if v.t.k in ('str', 'bytes') else TSeq(e)
        return r

    def obj_iter(self, v, n):
        c = R.classes.get(v.t.a[0])
        ci = self.prog.lookup(c.qual) if c and c.qual else None
        f = self.find_method(ci, '__iter__') if ci else None
        if f is not None:
            r = self.call_function(f, [v], {}, n)
            if r.t.k == 'obj' and r.t == v.t:
                return self.model_iter(v, n)
            return self.iterable(r, n)
        return self.model_iter(v, n)

    def model_iter(self, v, n):
        """iteration over a modelled object: the class declares field 'items' (ghost sequence still to be produced)"""
        key, ft = self.hkey_field(v.t.a[0], 'lines')
        if key is not None:
            return self.iterable(self.read_field(v, 'lines', n), n)
        raise Unsupported('iteration over %s' % v.t, n)

    def e_ListComp(self, n):
        if self.spec_mode or self.qvars:
            s, t = self.comp_seq(n)
            return V(TSeq(t), s)
        return self.comprehension(n, 'list')

    def e_GeneratorExp(self, n):
        return self.e_ListComp(n)

    def e_SetComp(self, n):
        return self.comprehension(n, 'set')

    def e_DictComp(self, n):
        return self.comprehension(n, 'dict')

    def bind_target(self, target, v, n):
        self.assign(target, v, n)

    def comp_seq(self, n):
        """pure map comprehension: (sequence term, element type)"""
        if len(n.generators) != 1 or n.generators[0].ifs:
            raise Unsupported('comprehension is not a plain map', n)
        g = n.generators[0]
        it = self.iterable(self.ev(g.iter), n)
        cn = intval(it.n)
        if cn is not None and cn <= 12:
            items = []
            fr = self.sub_frame()
            for k in range(cn):
                self.fr = fr
                try:
                    self.bind_target(g.target, it.at(z3.IntVal(k)), n)
                    items.append(self.ev(n.elt))
                finally:
                    self.fr = fr.parent
            if not items:
                return seqth(z3.IntSort()).empty, INT
            t = items[0].t
            for x in items[1:]:
                t = self.join_type(t, x.t)
            return seqth(sort_of(t)).lit([self.tz(self.coerce(x, t)) for x in items]), t
        i = z3.Int(self.fresh_name('i?'))
        rng = z3.And(0 <= i, i < it.n)
        fr = self.sub_frame()
        self.qenter(i, rng)
        self.fr = fr
        try:
            self.bind_target(g.target, it.at(i), n)
            e = self.ev(n.elt)
        finally:
            self.fr = fr.parent
            fs = self.qleave()
        t = e.t
        if t.k == 'seq' and t.a[0].k == 'tvar':
            raise Unsupported('element type', n)
        tt = seqth(sort_of(t))
        if self.qvars:
            q = self.fresh('comp@%d' % n.lineno, tt.S)
        else:
            q = self.fresh('comp@%d' % n.lineno, tt.S)
        self.assume(tt.len(q) == z3.If(it.n > 0, it.n, z3.IntVal(0)) if not self.spec_mode and self.decide(it.n >= 0) is not True else tt.len(q) == it.n)
        body = zand(fs + [tt.idx(q, i) == self.tz(e)])
        pats = [tt.idx(q, i)]
        if it.seq is not None and not z3.is_quantifier(it.seq):
            pats.append(th.seq_of_term(it.seq).idx(it.seq, i))
        self.assume(z3.ForAll([i], z3.Implies(rng, body), patterns=pats))
        return q, t

    def qenter(self, i, rng):
        self.qvars.append(i)
        self.qscope.append((i, rng, []))
        self.gs.push()
        if not has_quant(rng):
            self.gs.add(rng)

    def qleave(self):
        self.qvars.pop()
        _, _, fs = self.qscope.pop()
        self.gs.pop()
        return fs

    def sub_frame(self):
        fr = Frame(self.fr.fi, self.fr.mod, self.fr.cls, self.fr.key, parent=self.fr)
        fr.maybe = {}
        fr.contract = self.fr.contract
        fr.ctor = self.fr.ctor
        fr.entry = self.fr.entry
        fr.base = self.fr.base
        fr.loops = self.fr.loops
        fr.handlers = []
        return fr

    def e_Starred(self, n):
        raise Unsupported('starred', n)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v, n)
        return v

    # ------------------------------------------------------------ quantifiers
    def quantify(self, gen, n, universal):
        """all(...) / any(...) over a generator expression, spec or pure code"""
        vars_, rngs = [], []
        fr = self.sub_frame()
        self.trigstack.append([])
        entered = 0
        old = self.fr
        self.fr = fr
        try:
            expand = None
            for g in gen.generators:
                itv = self.ev(g.iter)
                if itv.t.k == 'py' and isinstance(itv.py, tuple) and itv.py[0] == 'every':
                    i = z3.Const(self.fresh_name('i?'), sort_of(itv.py[1]))
                    self.qenter(i, z3.BoolVal(True))
                    entered += 1
                    vars_.append(i)
                    self.bind_target(g.target, V(itv.py[1], i), n)
                    continue
                it = self.iterable(itv, n)
                cn = intval(it.n)
                if cn is not None and cn <= 12 and len(gen.generators) == 1:
                    parts = []
                    for k in range(cn):
                        self.bind_target(g.target, it.at(z3.IntVal(k)), n)
                        conds = [self.evb(c) for c in g.ifs]
                        b = self.evb(gen.elt)
                        parts.append(z3.Implies(zand(conds), b) if universal and conds else zand(conds + [b]) if conds else b)
                    return zand(parts) if universal else zor(parts)
                i = z3.Int(self.fresh_name('i?'))
                # ranges quantify directly over the value
                if itv.t.k == 'py' and isinstance(itv.py, tuple) and itv.py[0] == 'range' and itv.py[3] == 1:
                    a, b = itv.py[1], itv.py[2]
                    rng = z3.And(a <= i, i < b)
                    item = V(INT, i)
                else:
                    rng = z3.And(0 <= i, i < it.n)
                    item = None
                self.qenter(i, rng)
                entered += 1
                vars_.append(i)
                rngs.append(rng)
                self.bind_target(g.target, item if item is not None else it.at(i), n)
                for c in g.ifs:
                    cz = self.evb(c)
                    rngs.append(cz)
                    self.qscope[-1] = (self.qscope[-1][0], z3.And(self.qscope[-1][1], cz), self.qscope[-1][2])
            body = self.evb(gen.elt)
        finally:
            self.fr = old
            trigs = self.trigstack.pop()
            allfs = []
            for _ in range(entered):
                fs = self.qleave()
                allfs = fs + allfs
        rng = zand(rngs)
        # facts about the quantified items (definitions of fresh terms) hold for every item
        if allfs:
            self.assume(z3.ForAll(vars_, z3.Implies(rng, zand(allfs)), **self.pats(vars_, z3.Implies(rng, zand(allfs)), [])))
        if universal:
            f = z3.Implies(rng, body)
            return z3.ForAll(vars_, f, **self.pats(vars_, f, trigs))
        f = z3.And(rng, body)
        return z3.Exists(vars_, f, **self.pats(vars_, f, trigs))

    def q_exists(self, i, rng, body):
        f = z3.And(rng, body)
        return z3.Exists([i], f, **self.pats([i], f, []))

    def pats(self, vars_, f, trigs):
        p = choose_patterns(vars_, f, trigs)
        return {'patterns': p} if p else {}


def const_free_names(expr):
    return {x.id for x in ast.walk(expr) if isinstance(x, ast.Name)}


def choose_patterns(vars_, f, trigs):
    if trigs:
        ts = [t for t in trigs if any(contains_var(t, v) for v in vars_)]
        if ts:
            covered = lambda t: all(contains_var(t, v) for v in vars_)
            full = [t for t in ts if covered(t)]
            if full:
                return full
            return [z3.MultiPattern(*ts)] if len(ts) > 1 else ts
    ids = [v.get_id() for v in vars_]
    cands = {}
    seen = set()

    def walk(e, i):
        if i in seen:
            return
        seen.add(i)
        q = qconsts(e, i)
        if not q & idset:
            return
        _, cs, pat, _ = kids(e, i)
        for c, j in cs:
            if j not in seen:
                walk(c, j)
        if pat:
            vs = frozenset(j for j, v in enumerate(ids) if v in q)
            if good_pattern(e, i, idset):
                cands[i] = (e, vs, size(e))
    idset = frozenset(ids)
    walk(f, f.get_id())
    cs = sorted(cands.values(), key=lambda x: x[2])
    allv = frozenset(range(len(vars_)))
    full = [c for c in cs if c[1] == allv]
    if full:
        out = []
        for c in full:
            if not any(subterm(o[0], c[0]) for o in out):
                out.append(c)
        return [c[0] for c in out[:5]]
    # multi-pattern cover
    per = []
    for j in range(len(vars_)):
        opts = [c for c in cs if j in c[1]]
        if not opts:
            return None
        per.append(opts)
    out = []
    import itertools
    combos = itertools.islice(itertools.product(*[o[:3] for o in per]), 9)
    seenp = set()
    for co in combos:
        ts = []
        for c in co:
            if not any(c[0].eq(t) for t in ts):
                ts.append(c[0])
        key = tuple(sorted(t.get_id() for t in ts))
        if key not in seenp:
            seenp.add(key)
            out.append(z3.MultiPattern(*ts))
    return out[:4]


_sizes = {}
_qconsts = {}
_nodes = {}
PATK = (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR)


def kids(e, i):
    """children of a term and whether it may be a pattern; kept for the whole run"""
    r = _nodes.get(i)
    if r is None:
        q = z3.is_quantifier(e)
        cs = [(c, c.get_id()) for c in ([e.body()] if q else e.children())]
        k = e.decl().kind() if not q and z3.is_app(e) else None
        _nodes[i] = r = (e, cs, bool(cs) and k in PATK, k in PATK or k == z3.Z3_OP_DT_CONSTRUCTOR)
    return r
_EMPTY = frozenset()


def size(e):
    r = _sizes.get(e.get_id())
    if r is None:
        n = 1 + sum(size(c) for c in e.children()) if z3.is_app(e) else 1
        _sizes[e.get_id()] = r = (e, n)
    return r[1]


def qconsts(e, i):
    """ids of the bound-variable constants (named with ? or !) in a term"""
    r = _qconsts.get(i)
    if r is None:
        cs = kids(e, i)[1]
        if not cs:
            v = frozenset((i,)) if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and ('?' in e.decl().name() or '!' in e.decl().name()) else _EMPTY
        else:
            v = _EMPTY
            for c, j in cs:
                w = qconsts(c, j)
                if w and not w <= v:
                    v = v | w if v else w
        _qconsts[i] = r = v
    return r


def subterm(a, b):
    if a.eq(b):
        return True
    if size(b) <= size(a):
        return False
    return any(subterm(a, c) for c in b.children())


def contains_var(e, v):
    return v.get_id() in qconsts(e, e.get_id())


def good_pattern(e, i, idset):
    """no interpreted symbol above a bound variable except select/accessors"""
    if i in idset or not qconsts(e, i) & idset:
        return True
    _, cs, _, ok = kids(e, i)
    return ok and all(good_pattern(c, j, idset) for c, j in cs)
