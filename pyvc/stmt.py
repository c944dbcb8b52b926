"""Statements, loops, calls, contracts."""
import ast
import z3
from . import theory as th
from .theory import (T, INT, BOOL, NONE, STR, BYTES, PY, TList, TSeq, TSet, TPSet, TDict, TObj, TEnum, TOpt, TTuple, parse_type,
                     sort_of, seqth, is_ref, opt_dt, tup_dt)
from .api import R, SpecFn, Lemma, Extern
from . import api
from .frontend import FuncInfo, ClassInfo, Module, CTYPE_RANGE, _walk_own
from .sym import (V, TVar, Frame, PathEnd, Restart, Unsupported, PyRaise, ReturnX, BreakX, ContinueX, intval, zand, zor, zsimp, has_quant, fkey,
                  const_names, exc_matches)
from .expr import It, choose_patterns

_pc = {}


def parse_expr(s):
    if s not in _pc:
        _pc[s] = ast.parse(s.strip(), mode='eval').body
    return _pc[s]


class Loop:
    def __init__(self, info, nalloc, ncreated):
        self.info, self.nalloc, self.ncreated = info, nalloc, ncreated


class StmtMixin:

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for s in body:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.run_hints('before:', s)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__, s)
        m(s)
        self.run_hints('after:', s)

    def run_hints(self, prefix, s):
        c = self.fr.contract
        if c is None or not c.hints:
            return
        src = None
        for k, hs in c.hints.items():
            if k.startswith(prefix):
                if src is None:
                    src = ast.unparse(s)
                pat = k[len(prefix):]
                if src.startswith(pat):
                    self.ghost(hs, s)

    def ghost(self, hs, node=None):
        for h in ([hs] if isinstance(hs, str) else hs):
            tree = ast.parse(h.strip()).body
            self.ghost_block(tree, node)

    def ghost_block(self, tree, node=None):
        for st in tree:
            if isinstance(st, ast.Assert):
                if self.dry:
                    continue
                self.spec_mode += 1
                try:
                    g = self.evb(st.test)
                finally:
                    self.spec_mode -= 1
                self.oblige(g, 'hint', node, self.short(st.test))
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                if self.dry:
                    continue
                self.spec_mode += 1
                try:
                    f = self.ev(st.value.func)
                    args = [self.ev(a) for a in st.value.args]
                finally:
                    self.spec_mode -= 1
                if isinstance(f.py, Lemma):
                    self.apply_lemma(f.py, args, node)
                else:
                    raise Unsupported('ghost call of a non-lemma', st)
            elif isinstance(st, ast.If):
                self.spec_mode += 1
                try:
                    c = self.evb(st.test)
                finally:
                    self.spec_mode -= 1
                if self.choose([c, z3.Not(c)]) == 0:
                    self.ghost_block(st.body, node)
                else:
                    self.ghost_block(st.orelse, node)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.spec_mode += 1
                try:
                    v = self.ev(st.value)
                finally:
                    self.spec_mode -= 1
                if v.t.k in ('list', ) :
                    v = V(TSeq(self.as_seq(v)[1]), self.as_seq(v)[0])
                self.fr.locals[st.targets[0].id] = v
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Attribute):
                # ghost fields (declared with a name beginning with g_, which the code cannot read: the front end has no such attribute)
                if not st.targets[0].attr.startswith('g_'):
                    raise Unsupported('ghost assignment to %s' % ast.unparse(st.targets[0]), st)
                self.spec_mode += 1
                try:
                    o = self.ev(st.targets[0].value)
                    v = self.ev(st.value)
                finally:
                    self.spec_mode -= 1
                self.write_field(o, st.targets[0].attr, v, node)
            elif isinstance(st, ast.Pass) or (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                pass
            elif isinstance(st, ast.Return):
                raise ReturnX(None)
            else:
                raise Unsupported('ghost statement %s' % ast.unparse(st))

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            self.fr.locals[a.asname or a.name.split('.')[0]] = V(PY, None, ('ext', a.name))

    def s_ImportFrom(self, s):
        base = self.fr.mod._resolve_from(s)
        for a in s.names:
            m = self.prog.module(base)
            r = self.prog.resolve_name(m, a.name) if m is not None else None
            if r is None:
                sub = self.prog.module(base + '.' + a.name)
                r = sub if sub is not None else ('ext', base + '.' + a.name)
            self.fr.locals[a.asname or a.name] = self.static_value(r, a.name, s)

    def s_Global(self, s):
        raise Unsupported('global statement', s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            self.do_yield(s.value)
            return
        if isinstance(s.value, ast.YieldFrom):
            v = self.ev(s.value.value)
            fr = self.fr_yield()
            cur = fr.yields
            q, e = self.as_seq(v)
            self.list_extend(cur, v, s)
            return
        self.ev(s.value)

    def fr_yield(self):
        fr = self.fr
        while fr.parent is not None and fr.yields is None:
            fr = fr.parent
        return fr

    def do_yield(self, y):
        v = self.ev(y.value) if y.value is not None else self.mk_none()
        fr = self.fr_yield()
        self.list_append(fr.locals['_yields'], v, y)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else self.mk_none()
        raise ReturnX(v)

    def s_Raise(self, s):
        if s.exc is None:
            e = getattr(self, 'cur_exc', None)
            raise PyRaise(e or 'Exception', s)
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        raise PyRaise(ast.unparse(e).split('.')[-1], s)

    def s_Assert(self, s):
        c = self.evb(s.test)
        self.safety(c, 'AssertionError', s)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        ct = None
        if isinstance(s.annotation, ast.Constant) and isinstance(s.annotation.value, str) and isinstance(s.target, ast.Name) \
                and self.fr.mod is not None and self.fr.mod.is_pyx:
            ct = s.annotation.value
            self.fr.ctypes[s.target.id] = ct
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)
        elif ct in CTYPE_RANGE and s.target.id not in self.fr.locals:
            v = V(INT, self.fresh(s.target.id + '.uninit', z3.IntSort()), ct=ct)
            lo, hi = CTYPE_RANGE[ct]
            self.assume(z3.And(v.z >= lo, v.z <= hi))
            self.fr.locals[s.target.id] = v

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup_name(t.id, s)
            if cur.t.k == 'list' and isinstance(s.op, ast.Add):
                self.list_extend(cur, self.ev(s.value), s)
                return
            if cur.t.k == 'pset':
                raise Unsupported('a shared set is modified in place', s)
            if cur.t.k == 'set':
                v = self.binop(s.op, cur, self.ev(s.value), s)
                self.hwrite(('S', str(cur.t.a[0])), cur.z, self.set_val(v), s)
                return
            self.assign(t, self.binop(s.op, cur, self.ev(s.value), s), s)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr, s)
            if cur.t.k == 'list' and isinstance(s.op, ast.Add):
                self.list_extend(cur, self.ev(s.value), s)
                return
            v = self.binop(s.op, cur, self.ev(s.value), s)
            if o.t.k == 'opt':
                o = self.unopt(o, s)
            self.write_field(o, t.attr, v, s)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev(t.slice)
            cur = self.getitem(o, i, s)
            self.setitem(o, i, self.binop(s.op, cur, self.ev(s.value), s), s)
        else:
            raise Unsupported('augmented assignment', s)

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            fr = self.fr
            # comprehension sub-frames bind locally; everything else binds in the function frame
            ct = fr.ctypes.get(t.id)
            if ct in CTYPE_RANGE:
                v = self.to_ctype(v, ct, s)
            elif ct == 'c_bint':
                v = V(BOOL, self.truth(v, s))
            elif ct is not None and self.fr.mod is not None:
                if v.t.k == 'opt' and is_ref(v.t):
                    pass
            dt = fr.declt.get(t.id)
            if dt is not None and not self.spec_mode:
                v = self.coerce(v, dt, s)
            fr.locals[t.id] = v
            fr.maybe.pop(t.id, None)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            if o.t.k == 'opt':
                o = self.unopt(o, s, 'AttributeError')
            if o.t.k != 'obj':
                raise Unsupported('attribute assignment on %s' % o.t, s)
            self.write_field(o, t.attr, v, s)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            if o.t.k == 'opt':
                o = self.unopt(o, s)
            if isinstance(t.slice, ast.Slice):
                self.set_slice(o, t.slice, v, s)
            else:
                self.setitem(o, self.ev(t.slice), v, s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v.t.k == 'opt':
                v = self.unopt(v, s)
            if v.t.k == 'tuple':
                items = self.tuple_items(v)
                if any(isinstance(x, ast.Starred) for x in t.elts):
                    raise Unsupported('starred target', s)
                if len(items) != len(t.elts):
                    self.safety(z3.BoolVal(False), 'ValueError', s)
                    raise PathEnd()
            elif v.t.k in ('list', 'seq', 'str', 'bytes'):
                q, e = self.as_seq(v)
                tt = th.seq_of_term(q)
                self.safety(tt.lenof(q) == len(t.elts), 'ValueError', s)
                items = [V(e, tt.at(q, z3.IntVal(k))) for k in range(len(t.elts))]
                if v.t.k == 'str':
                    items = [V(STR, tt.single_(x.z)) for x in items]
                if getattr(v, 'ct', None):
                    for x in items:
                        x.ct = v.ct
            elif v.t.k == 'obj' and v.t.a[0] == 'View':
                # a memoryview yields its numbers in order
                ci = R.classes['View']
                n, it = self.read_field(v, 'n', s).z, self.read_field(v, 'item', s).z
                self.safety(n == it * len(t.elts), 'ValueError', s)
                get = self.find_method(self.prog.lookup(ci.qual), '__getitem__')
                items = [self.call_function(get, [v, self.mk_int(k)], {}, s) for k in range(len(t.elts))]
            else:
                raise Unsupported('unpacking %s' % v.t, s)
            for x, y in zip(t.elts, items):
                self.assign(x, y, s)
        else:
            raise Unsupported('assignment target', s)

    def setitem(self, o, i, v, s):
        k = o.t.k
        if k == 'list':
            e = o.t.a[0]
            if e.k == 'tvar':
                if self.elemtypes.get(e.a[0]) is None:
                    self.safety(z3.BoolVal(False), 'IndexError', s)
                    raise PathEnd()
            e = self.elt(o)
            q = self.list_content(o)
            tt = th.seq_of_term(q)
            p = self.norm_index(self.to_int(i, s), tt.lenof(q), 'IndexError', s)
            self.hwrite(('L', str(e)), o.z, tt.upd(q, self.atom(p), self.atom(self.tz(self.coerce(v, e, s)))), s)
            return
        if k == 'dict':
            self.dict_set(o, i, v, s)
            return
        if k == 'obj':
            c = R.classes.get(o.t.a[0])
            if i.t.k == 'tuple' and len(i.t.a) == 2 and c and c.qual:
                f = self.find_method(self.prog.lookup(c.qual), 'setitem2')
                if f is not None:
                    self.call_function(f, [o] + list(self.tuple_items(i)) + [v], {}, s)
                    return
            f = self.find_method(self.prog.lookup(c.qual), '__setitem__') if c and c.qual else None
            if f is not None:
                self.call_function(f, [o, i, v], {}, s)
                return
        raise Unsupported('item assignment on %s' % o.t, s)

    def dict_set(self, o, i, v, s):
        if o.t.a[0].k == 'tvar' and self.elemtypes.get(o.t.a[0].a[0]) is None:
            self.elemtypes[o.t.a[0].a[0]] = TDict(i.t, v.t)
            self.restart()
        kt, vt = self.dtypes(o)
        dom, val = self.dict_parts(o)
        kz = self.tz(self.coerce(i, kt, s))
        dt = sort_of(T('pmap', kt, vt))
        self.hwrite(self.dkey(o), o.z, dt.constructor(0)(z3.Store(dom, kz, z3.BoolVal(True)), z3.Store(val, kz, self.tz(self.coerce(v, vt, s)))), s)

    def set_slice(self, o, sl, v, s):
        if o.t.k != 'list':
            raise Unsupported('slice assignment on %s' % o.t, s)
        q = self.list_content(o)
        e = self.elt(o)
        tt = th.seq_of_term(q)
        lo, hi = self.slice_bounds(sl, tt.lenof(q), s)
        w, e2 = self.as_seq(v, s)
        if sort_of(e2) != sort_of(e):
            raise Unsupported('slice assignment types', s)
        self.hwrite(('L', str(e)), o.z, tt.cat(tt.slice(q, z3.IntVal(0), lo), tt.cat(w, tt.slice(q, hi, tt.lenof(q)))), s)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                if o.t.k == 'opt':
                    o = self.unopt(o, s)
                if o.t.k == 'list':
                    q = self.list_content(o)
                    tt = th.seq_of_term(q)
                    ln = tt.lenof(q)
                    if isinstance(t.slice, ast.Slice):
                        lo, hi = self.slice_bounds(t.slice, ln, s)
                    else:
                        lo = self.norm_index(self.ev_int(t.slice), ln, 'IndexError', s)
                        hi = lo + 1
                    self.hwrite(('L', str(self.elt(o))), o.z, tt.cat(tt.slice(q, z3.IntVal(0), lo), tt.slice(q, hi, ln)), s)
                    continue
                if o.t.k == 'dict':
                    kt, vt = self.dtypes(o)
                    dom, val = self.dict_parts(o)
                    kz = self.tz(self.coerce(self.ev(t.slice), kt, s))
                    self.safety(z3.Select(dom, kz), 'KeyError', s)
                    dt = sort_of(T('pmap', kt, vt))
                    self.hwrite(self.dkey(o), o.z, dt.constructor(0)(z3.Store(dom, kz, z3.BoolVal(False)), val), s)
                    continue
            if isinstance(t, ast.Name):
                self.fr.locals.pop(t.id, None)
                continue
            raise Unsupported('del', s)

    def s_If(self, s):
        c = self.evb(s.test)
        if self.choose([c, z3.Not(c)]) == 0:
            self.exec_block(s.body)
        else:
            self.exec_block(s.orelse)

    def s_Break(self, s):
        raise BreakX()

    def s_Continue(self, s):
        raise ContinueX()

    def s_FunctionDef(self, s):
        fi = FuncInfo(self.fr.mod, self.fr.cls, s, 'function')
        fi.qual = (self.fr.fi.qual if self.fr.fi else '') + '.' + s.name
        fi.closure = self.fr
        self.fr.locals[s.name] = V(PY, None, fi)

    def s_ClassDef(self, s):
        raise Unsupported('local class', s)

    def s_With(self, s):
        vals = []
        for it in s.items:
            v = self.ev(it.context_expr)
            if v.t.k != 'obj':
                raise Unsupported('with %s' % v.t, s)
            if v.t.k == 'obj':
                c = R.classes.get(v.t.a[0])
                if c is None or c.qual is None or not c.qual.startswith('ghost.'):
                    raise Unsupported('with %s' % v.t, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s)
        self.exec_block(s.body)

    def s_Try(self, s):
        fr = self.fr
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append('BaseException')
            elif isinstance(h.type, ast.Tuple):
                names.extend(ast.unparse(x).split('.')[-1] for x in h.type.elts)
            else:
                names.append(ast.unparse(h.type).split('.')[-1])
        pend = None
        depth = len(fr.handlers)
        fr.handlers.append(names)
        try:
            try:
                self.exec_block(s.body)
            finally:
                del fr.handlers[depth:]
                self.fr = fr
            if s.orelse:
                self.exec_block(s.orelse)
        except PyRaise as e:
            del self.inline_stack[self.inline_stack.index(fr.base) + 1:]
            hit = None
            for h in s.handlers:
                hn = ['BaseException'] if h.type is None else [ast.unparse(x).split('.')[-1] for x in h.type.elts] if isinstance(h.type, ast.Tuple) \
                    else [ast.unparse(h.type).split('.')[-1]]
                if any(exc_matches(e.name, x) for x in hn):
                    hit = h
                    break
            if hit is None:
                pend = e
            else:
                if hit.name:
                    fr.locals[hit.name] = V(PY, None, ('excval', e.name))
                old = getattr(self, 'cur_exc', None)
                self.cur_exc = e.name
                try:
                    self.exec_block(hit.body)
                except (PyRaise, ReturnX, BreakX, ContinueX) as e2:
                    pend = e2
                self.cur_exc = old
        except (ReturnX, BreakX, ContinueX) as e:
            pend = e
        if s.finalbody:
            self.exec_block(s.finalbody)
        if pend is not None:
            raise pend

    # ------------------------------------------------------------ loops
    def assigned_names(self, body):
        out = []

        def tgt(t):
            if isinstance(t, ast.Name):
                if t.id not in out:
                    out.append(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    tgt(x)
            elif isinstance(t, ast.Starred):
                tgt(t.value)
        st = list(body)
        while st:
            n = st.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                if isinstance(n, ast.FunctionDef):
                    out.append(n.name)
                continue
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                if not (isinstance(n, ast.AnnAssign) and n.value is None):
                    tgt(n.target)
            elif isinstance(n, ast.For):
                tgt(n.target)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        tgt(i.optional_vars)
            elif isinstance(n, ast.NamedExpr):
                tgt(n.target)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.append(n.name)
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            st.extend(ast.iter_child_nodes(n))
        return out

    def loop_ordinal(self, node):
        fr = self.fr
        root = fr.fi.node if fr.fi is not None else None
        if root is None:
            return 0
        loops = getattr(root, '_loops', None)
        if loops is None:
            loops = []

            def walk(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        continue
                    if isinstance(c, (ast.For, ast.While)):
                        loops.append(c)
                    walk(c)
                    if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        loops.append(c)
            walk(root)
            loops.sort(key=lambda c: (c.lineno, c.col_offset))
            k = 0
            root._loops = loops
            for c in loops:
                if isinstance(c, (ast.For, ast.While)):
                    c._ord = k
                    k += 1
            j = 0
            for c in loops:
                if not isinstance(c, (ast.For, ast.While)):
                    c._ord = 'c%d' % j
                    j += 1
        return getattr(node, '_ord', 'x')

    def loop_invs(self, node):
        c = self.fr.contract
        if c is None:
            return []
        o = self.loop_ordinal(node)
        inv = c.inv
        if isinstance(inv, dict):
            return inv.get(o, [])
        return inv

    def s_For(self, s):
        itv = self.ev(s.iter)
        it = self.iterable(itv, s)
        self.run_for(s, it)

    def run_for(self, s, it):
        cn = intval(it.n)
        if cn is not None and (cn <= 8) and not self.loop_invs(s):
            broke = False
            for k in range(cn):
                self.assign(s.target, it.at(z3.IntVal(k)), s)
                try:
                    self.exec_block(s.body)
                except ContinueX:
                    continue
                except BreakX:
                    broke = True
                    break
            if not broke:
                self.exec_block(s.orelse)
            return

        def head(k):
            self.assign(s.target, it.at(k), s)
        self.run_loop(s, s.body, s.orelse, it=it, head=head)

    def s_While(self, s):
        self.run_loop(s, s.body, s.orelse, test=s.test)

    def push_counter(self, name_vals):
        fr = self.fr
        saved = {k: fr.locals.get(k) for k in name_vals}
        for k, v in name_vals.items():
            fr.locals[k] = v
        return saved

    def run_loop(self, s, body, orelse, it=None, head=None, test=None, extra_names=()):
        fr = self.fr
        key = (fr.key, s.lineno, s.col_offset, self.loop_ordinal(s))
        info = self.loopinfo.setdefault(key, {'mods': {}, 'terms': {}, 'new': {}, 'maybe': set(), 'types': {}, 'changed': False})
        invs = [parse_expr(x) for x in self.loop_invs(s)]
        depth = len(fr.counters) + 1
        kname = '_k%d' % depth
        c = fr.contract
        o = self.loop_ordinal(s)
        if c is not None and ('loop%s.before' % o) in c.hints:
            self.ghost(c.hints['loop%s.before' % o], s)

        def bind(k):
            d = {'_k': V(INT, k), kname: V(INT, k)}
            if it is not None:
                d['_n'] = V(INT, it.n)
                d['_n%d' % depth] = d['_n']
                if it.guard is not None:
                    d['_it'] = it.guard
                if it.seq is not None:
                    q = it.seq
                    et = getattr(it, 'et', None)
                    d['_s'] = d['_s%d' % depth] = V(getattr(it, 'st', None) or self.seq_type_of(q), q)
            fr.locals.update(d)

        def snapshot_locals():
            return {k: fr.locals.get(k) for k in ('_k', '_n', '_s', '_it')}
        saved = snapshot_locals()
        fr.loops += 1
        fr.counters.append(kname)
        guard0 = self.list_content(it.guard) if it is not None and it.guard is not None else None

        # entry
        bind(z3.IntVal(0))
        pre_locals = dict(fr.locals)
        fr.loopentry = getattr(fr, 'loopentry', {})
        fr.loopentry[depth] = (pre_locals, self.snapshot(), self.alloc)
        for x in invs:
            self.check_inv(x, s, 'invariant-entry')

        lp = Loop(info, len(self.allocs), len(self.created))
        alloc_in = self.alloc
        heap_in = dict(self.heap)

        # havoc
        names = self.assigned_names(body)
        if it is not None and isinstance(s, ast.For):
            for t in self.assigned_names([ast.Assign(targets=[s.target], value=None)]):
                if t not in names:
                    names.append(t)
        names += list(extra_names)
        k = self.fresh('%s@%s' % (kname, o), z3.IntSort())
        self.assume(k >= 0)
        if it is not None:
            self.assume(z3.Implies(it.n >= 0, k <= it.n))
        hav = {}
        for x in names:
            if x in fr.locals and fr.locals[x] is not None:
                v = fr.locals[x]
                t = info['types'].get(x, v.t)
                if t.k == 'py' or v.t.k == 'py':
                    fr.locals.pop(x)
                    continue
                if t.k == 'list' and t.a[0].k == 'tvar':
                    tt = self.elemtypes.get(t.a[0].a[0])
                    if tt is not None:
                        t = TList(tt)
                if t.k == 'tuple' and not self.has_sort(t):
                    raise Unsupported('loop variable %s of type %s' % (x, t), s)
                if t.k == 'none':
                    t = info['types'].get(x, t)
                if t.k in ('list', 'set', 'dict') and t.a[0].k == 'tvar':
                    hv = V(t, self.fresh('%s@L%s' % (x, o), z3.IntSort()), ct=v.ct)
                else:
                    hv = V(t, self.fresh('%s@L%s' % (x, o), sort_of(t)), ct=v.ct)
                hav[x] = hv
            elif x in info['new']:
                t, ct = info['new'][x]
                hav[x] = V(t, self.fresh('%s@L%s' % (x, o), sort_of(t)), ct=ct)
                fr.maybe[x] = self.fresh('%s.def' % x, z3.BoolSort()) if x in info['maybe'] else k > 0
        # heap
        if info['mods']:
            self.alloc = self.fresh('alloc@L%s' % o, z3.IntSort())
            self.assume(self.alloc >= alloc_in)
        else:
            self.alloc = self.fresh('alloc@L%s' % o, z3.IntSort())
            self.assume(self.alloc >= alloc_in)
        for key2, kinds in sorted(info['mods'].items(), key=str):
            old = self.harr(key2)
            refs = [kd for kd in kinds if isinstance(kd, tuple)]
            if 'all' in kinds:
                new = self.fresh('H.%s@L%s' % (self.hname(key2), o), old.sort())
                self.heap[key2] = new
                self.frame_fact(key2, new)
                self.harr_axiom(key2, new, self.alloc)
            elif 'fresh' in kinds:
                new = self.fresh('H.%s@L%s' % (self.hname(key2), o), old.sort())
                self.heap[key2] = new
                r = z3.Int('r!')
                e = z3.Select(new, r)
                self.assume(z3.ForAll([r], z3.Implies(zand([0 < r, r < alloc_in] + [r != info['terms'][kd[1]] for kd in refs]),
                                                      e == z3.Select(old, r)), patterns=[e]))
                self.harr_axiom(key2, new, self.alloc)
            else:
                a = old
                for kd in sorted(refs):
                    v = self.fresh('H.%s.at@L%s' % (self.hname(key2), o), old.sort().range())
                    a = z3.Store(a, info['terms'][kd[1]], v)
                    self.ref_content_facts(key2, v)
                self.heap[key2] = a
        for x, hv in hav.items():
            fr.locals[x] = hv
            self.assume(self.type_facts(hv))
            if hv.ct in CTYPE_RANGE:
                lo, hi = CTYPE_RANGE[hv.ct]
                self.assume(z3.And(hv.z >= lo, hv.z <= hi))
        if guard0 is not None:
            # an invariant of every loop over a list (obligation iterated-list-unchanged)
            g1 = self.list_content(it.guard)
            if not g1.eq(guard0):
                self.assume(th.seq_of_term(g1).eq(g1, guard0))
        head_maybe = dict(fr.maybe)
        head_locals = dict(fr.locals)
        bind(k)
        for x in invs:
            self.assume_spec(x)
        if c is not None and ('loop%s.head' % o) in c.hints:
            self.ghost(c.hints['loop%s.head' % o], s)

        if test is None:
            br = self.choose([k < it.n, z3.And(k >= it.n, k == z3.If(it.n > 0, it.n, z3.IntVal(0)) if self.decide(it.n >= 0) is not True else k == it.n)])
        else:
            # the test is evaluated on both branches (it may have effects or raise)
            self.loopstack.append(lp)
            try:
                tv = self.evb(test)
            finally:
                self.loopstack.pop()
            self.loop_check(lp)
            br = self.choose([tv, z3.Not(tv)])
        if br == 0:
            self.loopstack.append(lp)
            broke = False
            try:
                try:
                    dec0 = self.loop_dec(s)
                    if head is not None:
                        head(k)
                    if c is not None and ('loop%s.body' % o) in c.hints:
                        self.ghost(c.hints['loop%s.body' % o], s)
                    self.exec_block(body)
                except ContinueX:
                    pass
                except BreakX:
                    broke = True
                finally:
                    self.loop_check(lp)
                    self.loopstack.pop()
            except (ReturnX, PyRaise):
                raise
            if broke:
                fr.counters.pop()
                fr.loops -= 1
                if c is not None and ('loop%s.break' % o) in c.hints:
                    self.ghost(c.hints['loop%s.break' % o], s)
                self.restore(fr, saved)
                return
            # discover names and types
            self.fr = fr
            for x in names:
                v = fr.locals.get(x)
                if x in hav:
                    if v is None or x in fr.maybe and fr.maybe[x] is head_maybe.get(x):
                        if x in info['new'] and x in fr.maybe and x not in info['maybe']:
                            info['maybe'].add(x)
                            self.restart()
                        continue
                    if v.t.k == 'py':
                        continue
                    if v.t != hav[x].t:
                        vt = v.t
                        if vt.k == 'list' and vt.a[0].k == 'tvar':
                            vt = TList(self.elt(v))
                        if vt != hav[x].t:
                            j = self.join_type(vt, hav[x].t)
                            if j != hav[x].t:
                                info['types'][x] = j
                                if x in info['new']:
                                    info['new'][x] = (j, info['new'][x][1])
                                self.restart()
                elif v is not None and v.t.k not in ('py',) and x not in pre_locals:
                    if v.t.k in ('list', 'dict', 'set') and v.t.a[0].k == 'tvar':
                        continue
                    if self.has_sort(v.t):
                        info['new'][x] = (v.t, v.ct)
                        self.restart()
                elif v is not None and x in pre_locals and pre_locals[x] is not None and x not in hav and v.t.k != 'py':
                    pass
            if c is not None and ('loop%s.end' % o) in c.hints:
                self.ghost(c.hints['loop%s.end' % o], s)
            bind(k + 1)
            for x in invs:
                self.check_inv(x, s, 'invariant-preserved')
            if guard0 is not None:
                g1 = self.list_content(it.guard)
                if not g1.eq(guard0):
                    self.oblige(th.seq_of_term(g1).eq(g1, guard0), 'iterated-list-unchanged', s)
            if dec0 is not None:
                d1 = self.loop_dec(s)
                self.oblige(z3.And(d1 < dec0, dec0 >= 0), 'decreases', s)
            raise PathEnd()
        fr.counters.pop()
        fr.loops -= 1
        if c is not None and ('loop%s.exit' % o) in c.hints:
            self.ghost(c.hints['loop%s.exit' % o], s)
        self.restore(fr, saved)
        if orelse:
            self.exec_block(orelse)

    def seq_type_of(self, q):
        t = th.seq_of_term(q)
        if t.E.eq(z3.IntSort()):
            return TSeq(INT)
        return TSeq(T('raw', t.E.sexpr()))

    def restore(self, fr, saved):
        for k, v in saved.items():
            if v is None:
                fr.locals.pop(k, None)
            else:
                fr.locals[k] = v

    def has_sort(self, t):
        try:
            sort_of(t)
            return True
        except (TypeError, KeyError):
            return False

    def loop_check(self, lp):
        if lp.info['changed']:
            lp.info['changed'] = False
            if self.dry:
                self.again = True
            else:
                raise Restart()

    def loop_dec(self, s):
        c = self.fr.contract
        if c is None or not c.dec:
            return None
        o = self.loop_ordinal(s)
        d = c.dec.get(o) if isinstance(c.dec, dict) else None
        if d is None:
            return None
        self.spec_mode += 1
        try:
            return self.ev_int(parse_expr(d))
        finally:
            self.spec_mode -= 1

    def ref_content_facts(self, key, v):
        if key[0] == 'L':
            t = parse_type(key[1])
            if is_ref(t):
                i = z3.Int('i!')
                s = seqth(z3.IntSort())
                e = s.idx(v, i)
                lo = e >= 0 if t.k == 'opt' else e > 0
                self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.len(v)), z3.And(lo, e < self.alloc)), patterns=[e]))
        elif key[0] == 'f':
            ft = self.hkey_field(key[1], key[2])[1]
            self.assume(self.type_facts(V(ft, v)))
            ct = self.field_ctype(key)
            if ct in CTYPE_RANGE:
                lo, hi = CTYPE_RANGE[ct]
                self.assume(z3.And(v >= lo, v <= hi))

    def snapshot(self):
        d = dict(self.heap)
        self.snaps.append(d)
        return d

    def check_inv(self, x, node, kind):
        if self.dry:
            return
        self.spec_mode += 1
        try:
            g = self.evb(x)
        finally:
            self.spec_mode -= 1
        self.oblige(g, kind, node, self.short(x))

    def assume_spec(self, x):
        if self.dry:
            return
        self.spec_mode += 1
        try:
            g = self.evb(x)
        finally:
            self.spec_mode -= 1
        self.assume(g)

    # comprehension as a loop with result variable _res
    def comprehension(self, n, kind):
        if kind == 'list' and len(n.generators) == 1 and not n.generators[0].ifs and not self.loop_invs(n) and not isinstance(n.elt, (ast.List, ast.ListComp)):
            save = (len(self.facts), self.alloc, dict(self.heap), len(self.taken), len(self.obls), dict(self.namec))
            try:
                s, t = self.comp_seq(n)
                return self.new_list(t, s)
            except Unsupported as e:
                if self.qvars:
                    while self.qscope:
                        self.qleave() if self.qscope[-1][0] is not None else self.pop_guard()
                    self.qvars.clear()
                if len(self.taken) != save[3] or self.heap != save[2] and False:
                    raise
                del self.obls[save[4]:]
                self.factset -= {fkey(f) for f in self.facts[save[0]:]}
                del self.facts[save[0]:]
        site = self.site(n)
        fr = self.sub_frame()
        fr.contract = self.fr.contract
        fr.counters = list(self.fr.counters)
        et = self.elemtypes.get(site)
        if et is None and fr.contract is not None and 'c' in str(self.loop_ordinal(n)) and self.loop_ordinal(n) in fr.contract.locals:
            et = self.elemtypes[site] = parse_type(fr.contract.locals[self.loop_ordinal(n)])
        self.fr = fr
        try:
            if kind == 'list':
                res = self.new_list(et, seqth(sort_of(et)).empty) if et is not None else V(TList(TVar(site)), self.new_ref())
            elif kind == 'set':
                if et is None:
                    et = self.probe_elem(n)
                    self.elemtypes[site] = et
                    self.restart()
                res = self.new_set(et, z3.K(sort_of(et), z3.BoolVal(False)))
            else:
                if et is None:
                    res = V(TDict(TVar(site), TVar(site)), self.new_ref())
                else:
                    res = self.new_dict(et)
            fr.locals['_res'] = res

            def gen(i):
                g = n.generators[i]
                it = self.iterable(self.ev(g.iter), n)
                loop = ast.For(target=g.target, iter=g.iter, body=[], orelse=[], lineno=n.lineno, col_offset=n.col_offset)
                loop._ord = self.loop_ordinal(n) if i == 0 else '%s.%d' % (self.loop_ordinal(n), i)
                inner = _Inner(lambda: body(i))
                inner.lineno, inner.col_offset = n.lineno, n.col_offset
                loop.body = [inner]
                cn = intval(it.n)
                if cn is not None and cn <= 8 and not self.loop_invs(n):
                    for k in range(cn):
                        self.assign(g.target, it.at(z3.IntVal(k)), n)
                        try:
                            body(i)
                        except ContinueX:
                            pass
                    return

                def head(k):
                    self.assign(g.target, it.at(k), n)
                self.run_loop(loop, loop.body, [], it=it, head=head)

            def body(i):
                for cnd in n.generators[i].ifs:
                    b = self.evb(cnd)
                    if self.choose([b, z3.Not(b)]) == 1:
                        raise ContinueX()
                if i + 1 < len(n.generators):
                    gen(i + 1)
                elif kind == 'list':
                    self.list_append(res, self.ev(n.elt), n)
                elif kind == 'set':
                    v = self.coerce(self.ev(n.elt), et, n)
                    self.hwrite(('S', str(et)), res.z, z3.Store(self.set_val(res), self.tz(v), z3.BoolVal(True)), n)
                else:
                    self.dict_set(res, self.ev(n.key), self.ev(n.value), n)
            gen(0)
            if kind == 'list' and et is None:
                # never appended on this path
                pass
            return fr.locals['_res']
        finally:
            self.fr = fr.parent

    def s__Inner(self, s):
        s.run()

    def probe_elem(self, n):
        raise Unsupported('set comprehension element type', n)

    # ------------------------------------------------------------ calls
    def e_Call(self, n):
        # all()/any() over a generator
        if isinstance(n.func, ast.Name) and n.func.id in ('all', 'any') and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) \
                and not self.is_local(n.func.id):
            g = n.args[0]
            return V(BOOL, self.quantify(g, n, n.func.id == 'all'))
        if isinstance(n.func, ast.Name) and self.spec_mode:
            if n.func.id == 'old':
                return self.ev_old(n.args[0])
            if n.func.id == 'implies':
                a = self.evb(n.args[0])
                self.push_guard(a)
                try:
                    b = self.evb(n.args[1])
                finally:
                    self.pop_guard()
                return V(BOOL, z3.Implies(a, b))
            if n.func.id == 'ite':
                c = self.evb(n.args[0])
                return self.ite(c, self.ev(n.args[1]), self.ev(n.args[2]), n)
            if n.func.id == 'trig':
                v = self.ev(n.args[0])
                if self.trigstack:
                    self.trigstack[-1].append(self.tz(v) if v.t.k != 'list' else self.list_content(v))
                elif self.spec_mode and v.t.k not in ('bool', 'py') and v.z is not None:
                    self.assume(th.mention(self.tz(v)))
                return v
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return V(PY, None, ('super', self.fr.fi.cls if self.fr.fi else None, self.lookup_name('self', n)))
        f = self.ev(n.func)
        if not self.spec_mode and isinstance(f.py, tuple) and f.py[0] == 'exc':
            return V(PY, None, ('excval', f.py[1]))
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if v.t.k != 'tuple':
                    raise Unsupported('starred argument', n)
                args.extend(self.tuple_items(v))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                raise Unsupported('** argument', n)
            kw[k.arg] = self.ev(k.value)
        return self.call_value(f, args, kw, n)

    def is_local(self, name):
        fr = self.fr
        while fr is not None:
            if name in fr.locals:
                return True
            fr = fr.parent
        return False

    def call_value(self, f, args, kw, n):
        p = f.py
        if f.t.k != 'py':
            if f.t.k == 'obj':
                c = R.classes.get(f.t.a[0])
                fi = self.find_method(self.prog.lookup(c.qual), '__call__') if c and c.qual else None
                if fi is not None:
                    return self.call_function(fi, [f] + args, kw, n)
            raise Unsupported('call of %s' % f.t, n)
        if isinstance(p, FuncInfo):
            return self.call_function(p, args, kw, n)
        if isinstance(p, ClassInfo):
            return self.instantiate(p, args, kw, n)
        if isinstance(p, SpecFn):
            return self.spec_call(p, args, n)
        if isinstance(p, Extern):
            return self.extern_call(p, args, n)
        if isinstance(p, tuple):
            k = p[0]
            if k == 'bound':
                return self.call_function(p[1], [p[2]] + args, kw, n)
            if k == 'builtin':
                m = getattr(self, 'b_' + p[1], None)
                if m is None and 'builtins.' + p[1] in R.models:
                    q = R.models['builtins.' + p[1]]
                    self.assumed.add('model of %s: %s' % (p[1], q))
                    return self.call_value(V(PY, None, self.prog.lookup(q)), args, kw, n)
                if m is None:
                    raise Unsupported('builtin %s' % p[1], n)
                return m(args, kw, n)
            if k == 'method':
                return self.call_method(p[1], p[2], args, kw, n)
            if k == 'lambda':
                return self.call_lambda(p, args, kw, n)
            if k == 'ext':
                return self.call_ext(p[1], args, kw, n)
            if k == 'enumcls':
                if len(args) == 1:
                    raise Unsupported('enum lookup by value', n)
            if k == 'ccast':
                return self.to_ctype(args[0], p[1], n)
            if k == 'exc':
                return V(PY, None, ('excval', p[1]))
            if k == 'clsname':
                return self.instantiate(self.prog.lookup(R.classes[p[1]].qual), args, kw, n)
        raise Unsupported('call of %r' % (p,), n)

    def call_lambda(self, p, args, kw, n):
        node, fr0 = p[1], p[2]
        old = self.fr
        self.fr = fr0
        fr = self.sub_frame()
        try:
            for a, v in zip(node.args.args, args):
                fr.locals[a.arg] = v
            defs = node.args.defaults
            for a, d in zip(node.args.args[len(args):], defs[len(defs) - (len(node.args.args) - len(args)):]):
                fr.locals[a.arg] = self.ev(d)
            self.fr = fr
            return self.ev(node.body)
        finally:
            self.fr = old

    def bind_args(self, fi, args, kw, n):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(names):
            if a.vararg is None:
                self.safety(z3.BoolVal(False), 'TypeError', n)
                raise Unsupported('too many arguments for %s' % fi.qual, n)
            out[a.vararg.arg] = self.mk_tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = self.mk_tuple([])
        for nm, v in zip(names, args):
            out[nm] = v
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                out[k] = v
            else:
                raise Unsupported('unexpected keyword %s for %s' % (k, fi.qual), n)
        defs = a.defaults
        for nm, d in zip(names[len(names) - len(defs):], defs):
            if nm not in out:
                out[nm] = self.in_module(fi.mod, d, fi.cls)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self.in_module(fi.mod, d, fi.cls)
        for nm in names:
            if nm not in out:
                self.safety(z3.BoolVal(False), 'TypeError', n)
                raise Unsupported('missing argument %s of %s' % (nm, fi.qual), n)
        return out

    def contract_for(self, fi, bound):
        for c in self.contracts_by_qual.get(fi.qual, ()):
            if c.inline_only:
                continue
            if c.match is not None:
                ok = True
                for nm, t in c.match.items():
                    v = bound.get(nm)
                    if v is None or str(v.t) != t:
                        if not (v is not None and v.t.k == 'list' and v.t.a[0].k == 'tvar'):
                            ok = False
                if not ok:
                    continue
            return c
        return None

    def inline_contract(self, fi):
        for c in self.contracts_by_qual.get(fi.qual, ()):
            return c
        return None

    def call_function(self, fi, args, kw, n):
        # dynamic dispatch: a method of a declared subclass
        bound = self.bind_args(fi, args, kw, n)
        c = self.contract_for(fi, bound)
        if c is not None and not self.spec_mode:
            return self.apply_contract(c, fi, bound, n)
        if c is not None and self.spec_mode and c.spec_result:
            return self.spec_apply(c, fi, bound, n)
        return self.inline(fi, bound, n)

    def spec_apply(self, c, fi, bound, n):
        """a method used inside a specification stands for its contract's `result ==` expression"""
        fr = self.spec_frame({k: v for k, v in bound.items()})
        old = self.fr
        self.fr = fr
        try:
            return self.ev(parse_expr(c.spec_result))
        finally:
            self.fr = old

    def inline(self, fi, bound, n):
        if sum(1 for f in self.inline_stack if f.fi is not None and f.fi.node is fi.node) >= 2:
            raise Unsupported('recursive call of %s without contract' % fi.qual, n)
        if len(self.inline_stack) > 25:
            raise Unsupported('inlining too deep', n)
        if fi.odd:
            raise Unsupported('decorator %s of %s' % (fi.odd, fi.qual), n)
        self.used_inline.add(fi.qual)
        lineno = getattr(n, 'lineno', 0)
        fr = Frame(fi, fi.mod, fi.cls, '%s/%s@%s.%s' % (self.fr.key, fi.qual, lineno, getattr(n, 'col_offset', 0)), parent=fi.closure)
        fr.maybe = {}
        fr.base = fr
        fr.contract = self.inline_contract(fi)
        fr.locals.update(bound)
        self.arg_ctypes(fr, fi, n)
        fr.entry = (dict(fr.locals), self.snapshot(), self.alloc)
        if fi.name in ('__init__', '__cinit__') and 'self' in bound and self.spec_mode == 0:
            if getattr(self, 'ctor_ref', None) is not None and bound['self'].z is not None and bound['self'].z.eq(self.ctor_ref):
                fr.ctor = bound['self'].z
        old = self.fr
        self.fr = fr
        self.inline_stack.append(fr)
        depth = len(self.inline_stack)
        try:
            if fi.is_gen:
                return self.run_gen(fi, fr)
            if self.spec_mode:
                return self.spec_body(fi.node.body)
            try:
                self.exec_block(fi.node.body)
            except ReturnX as r:
                return self.ret_ctype(fi, r.v, n)
            return self.mk_none()
        finally:
            del self.inline_stack[depth - 1:]
            self.fr = old

    def ret_ctype(self, fi, v, n):
        rt = fi.node.returns
        if fi.mod is not None and fi.mod.is_pyx and isinstance(rt, ast.Constant) and rt.value in CTYPE_RANGE:
            return self.to_ctype(v, rt.value, n)
        return v

    def run_gen(self, fi, fr):
        site = (fr.key, 'yields')
        t = self.elemtypes.get(site)
        if t is None and '_yields' in fr.declt:
            t = fr.declt['_yields'].a[0]
        if t is not None:
            lst = self.new_list(t, seqth(sort_of(t)).empty)
        else:
            lst = V(TList(TVar(site)), self.new_ref())
        fr.yields = lst
        fr.locals['_yields'] = lst
        try:
            self.exec_block(fi.node.body)
        except ReturnX:
            pass
        return lst

    def arg_ctypes(self, fr, fi, n):
        if fi.mod is None or not fi.mod.is_pyx:
            return
        for a in fi.node.args.args:
            if isinstance(a.annotation, ast.Constant) and isinstance(a.annotation.value, str) and a.arg in fr.locals:
                ct = a.annotation.value
                if ct in CTYPE_RANGE:
                    fr.ctypes[a.arg] = ct
                    fr.locals[a.arg] = self.to_ctype(fr.locals[a.arg], ct, n)

    def spec_body(self, body):
        """evaluate a function body as an expression (if/return/let only)"""
        for i, st in enumerate(body):
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            if isinstance(st, ast.Return):
                return self.ev(st.value) if st.value is not None else self.mk_none()
            if isinstance(st, ast.Assign) and len(st.targets) == 1:
                self.assign(st.targets[0], self.ev(st.value), st)
                continue
            if isinstance(st, ast.If):
                c = self.evb(st.test)
                c = zsimp(c)
                rest = body[i + 1:]
                if z3.is_true(c):
                    return self.spec_body(st.body + rest)
                if z3.is_false(c):
                    return self.spec_body(st.orelse + rest)
                loc = dict(self.fr.locals)
                self.push_guard(c)
                try:
                    a = self.spec_body(st.body + rest)
                finally:
                    self.pop_guard()
                self.fr.locals = dict(loc)
                self.push_guard(z3.Not(c))
                try:
                    b = self.spec_body(st.orelse + rest)
                finally:
                    self.pop_guard()
                self.fr.locals = loc
                return self.ite(c, a, b, st)
            if isinstance(st, ast.Raise):
                return None
            raise Unsupported('statement in a specification function', st)
        return self.mk_none()

    def spec_frame(self, locals_, mod=None):
        fr = Frame(None, mod, None, 'spec')
        fr.maybe = {}
        fr.base = fr
        fr.entry = None
        fr.locals.update(locals_)
        return fr

    # ------------------------------------------------------------ contracts at call sites
    def cls_short(self, ci):
        n = self.class_of_qual.get(ci.qual)
        if n is None:
            raise Unsupported('class %s is not declared' % ci.qual)
        return n

    def instantiate(self, ci, args, kw, n):
        if self.spec_mode:
            raise Unsupported('object construction in a specification', n)
        if any(b.split('.')[-1] in ('Exception', 'ValueError') for b in ci.base_names):
            return V(PY, None, ('excval', ci.name))
        if ci.qual in self.enum_of_qual:
            raise Unsupported('enum lookup', n)
        name = self.cls_short(ci)
        init = self.find_method(ci, '__init__')
        r = self.new_ref(name)
        v = V(TObj(name), r)
        self.default_fields(ci, v)
        if init is None:
            return v
        bound = self.bind_args(init, [v] + args, kw, n)
        c = self.contract_for(init, bound)
        if c is not None:
            self.apply_contract(c, init, bound, n)
        else:
            old = getattr(self, 'ctor_ref', None)
            self.ctor_ref = r
            try:
                self.inline(init, bound, n)
            finally:
                self.ctor_ref = old
        return v

    def default_fields(self, ci, v):
        """C attributes of extension types start out as 0 / None"""
        cname = v.t.a[0]
        c = R.classes[cname]
        for f, ft in c.fields.items():
            ct = ci.ctypes.get(f)
            if ct is None:
                continue
            key, t = self.hkey_field(cname, f)
            z = None
            if t.k == 'int':
                z = z3.IntVal(0)
            elif t.k == 'bool':
                z = z3.BoolVal(False)
            elif t.k == 'opt' and is_ref(t):
                z = z3.IntVal(0)
            if z is not None:
                self.assume(self.rd(self.harr(key), v.z) == z)

    def eval_modifies(self, mods, frame):
        """[(heap key, ref or None)] in the current heap"""
        out = []
        old = self.fr
        self.fr = frame
        self.spec_mode += 1
        try:
            for m in mods:
                out.extend(self.one_modifies(m))
        finally:
            self.fr = old
            self.spec_mode -= 1
        return out

    def one_modifies(self, m):
        m = m.strip()
        if m.endswith('.*'):
            o = self.ev(parse_expr(m[:-2]))
            if o.t.k == 'opt':
                o = self.unopt(o)
            out = []
            st = [o.t.a[0]]
            while st:
                cn = st.pop()
                c = R.classes[cn]
                for f in c.fields:
                    out.append((('f', cn, f), o.z))
                st.extend(c.bases)
            for k in self.elemtypes:
                if isinstance(k, tuple) and k[0] == 'dynfield' and k[1] == o.t.a[0]:
                    out.append((('f', k[1], k[2]), o.z))
            return out
        if m.endswith('[]'):
            o = self.ev(parse_expr(m[:-2]))
            if o.t.k == 'opt':
                o = self.unopt(o)
            if o.t.k == 'list':
                return [(('L', str(self.elt(o))), o.z)]
            if o.t.k == 'set':
                return [(('S', str(o.t.a[0])), o.z)]
            if o.t.k == 'dict':
                return [(self.dkey(o), o.z)]
            raise Unsupported('modifies %s' % m)
        for pre, kk in (('list[', 'L'), ('set[', 'S'), ('dict[', 'D')):
            if m.startswith(pre):
                t = parse_type(m)
                return [((kk,) + tuple(str(x) for x in t.a), None)]
        head, _, f = m.rpartition('.')
        if head in R.classes:
            key, _t = self.hkey_field(head, f)
            return [(key, None)]
        o = self.ev(parse_expr(head))
        if o.t.k == 'opt':
            o = self.unopt(o)
        key, _t = self.hkey_field(o.t.a[0], f)
        if key is None:
            raise Unsupported('modifies %s: no such field' % m)
        return [(key, o.z)]

    def apply_contract(self, c, fi, bound, n):
        self.used_contracts.add(c.key)
        if c.trusted:
            self.assumed.add('contract %s' % c.key)
        locals_ = {}
        for nm, v in bound.items():
            t = c.args.get(nm)
            if t is not None:
                v = self.coerce(v, parse_type(t), n)
            locals_[nm] = v
        fr = self.spec_frame(locals_, None)
        fr.smod = fi.mod
        # C argument types
        if fi.mod is not None and fi.mod.is_pyx:
            for a in fi.node.args.args:
                if isinstance(a.annotation, ast.Constant) and a.annotation.value in CTYPE_RANGE and a.arg in locals_:
                    locals_[a.arg] = fr.locals[a.arg] = self.to_ctype(locals_[a.arg], a.annotation.value, n)
        caller = self.fr
        self.fr = fr
        self.spec_mode += 1
        pre = []
        try:
            for nm, x in c.lets.items():
                fr.locals[nm] = self.let_value(self.ev(parse_expr(x)))
            for x in () if self.dry else c.requires:
                pre.append((self.evb(parse_expr(x)), x))
        finally:
            self.fr = caller
            self.spec_mode -= 1
        for g, x in pre:
            self.oblige(g, 'precondition(%s)' % c.key, n, x[:60])
        if c.dec_self is not None and self.verifying is c:
            self.check_dec(c, fr, n)
        if c.noreturn:
            raise PathEnd()
        old_heap, old_alloc = self.snapshot(), self.alloc
        mods = self.eval_modifies(c.modifies, fr)
        ctor = fi.name in ('__init__', '__cinit__')
        bykey = {}
        for k, r in mods:
            if ctor and k[0] == 'f' and r is not None and r.eq(bound['self'].z) and any(r.eq(a) for a in self.allocs[-1:]):
                continue        # contents of a new object: prophecy
            bykey.setdefault(k, []).append(r)
        lab = c.key.split('.')[-1]
        if not self.qvars:
            na = self.fresh('alloc.' + lab, z3.IntSort())
            if not c.pure:
                self.assume(na >= self.alloc)
                self.alloc = na
        elif bykey:
            raise Unsupported('call with side effects inside a quantified expression', n)
        for k, refs in sorted(bykey.items(), key=str):
            a = self.harr(k)
            if None in refs:
                self.check_write(k, None, n)
                self.note_write(k, None)
                new = self.fresh('H.%s.%s' % (self.hname(k), lab), a.sort())
                self.heap[k] = new
                self.frame_fact(k, new)
                self.harr_axiom(k, new, self.alloc)
            else:
                for r in refs:
                    v = self.fresh('H.%s.at.%s' % (self.hname(k), lab), a.sort().range())
                    self.hwrite(k, r, v, n)
                    self.ref_content_facts(k, v)
        fr.entry = (dict(locals_), old_heap, old_alloc)
        # exceptional outcomes
        self.fr = fr
        try:
            for exc, cond in c.raises.items():
                if cond is None:
                    cz = None
                else:
                    cnd = cond[1] if isinstance(cond, tuple) else cond
                    cz = self.in_old(lambda: self.spec_bool(cnd), fr)
                exact = isinstance(cond, str)
                if cz is not None and z3.is_false(zsimp(cz)):
                    continue
                if not self.caller_allows(exc, caller):
                    # the caller must exclude it
                    self.fr = caller
                    if cz is None:
                        self.oblige(z3.BoolVal(False), 'no-%s(%s)' % (exc, c.key), n)
                    else:
                        self.oblige(z3.Not(cz), 'no-%s(%s)' % (exc, c.key), n, self.short(n))
                    self.fr = fr
                    continue
                if cz is None:
                    cz2 = [z3.BoolVal(True), z3.BoolVal(True)]
                elif exact:
                    cz2 = [z3.Not(cz), cz]
                else:
                    cz2 = [z3.BoolVal(True), cz]
                if self.choose(cz2) == 1:
                    for x in c.exc_ensures:
                        self.assume(self.spec_bool(x))
                    self.fr = caller
                    raise PyRaise(exc, n)
            rt = parse_type(c.returns) if c.returns else NONE
            if rt.k == 'none':
                res = self.mk_none()
            else:
                res = self.fresh_value('r.%s@%s' % (lab, getattr(n, 'lineno', 0)), rt)
                self.assume(self.type_facts(res))
            rct = fi.node.returns
            if fi.mod is not None and fi.mod.is_pyx and isinstance(rct, ast.Constant) and rct.value in CTYPE_RANGE:
                res.ct = rct.value
            fr.locals['result'] = res
            for x in () if self.dry else c.ensures:
                self.assume(self.spec_bool(x))
        finally:
            self.fr = caller
        return res

    def fresh_value(self, hint, t):
        if t.k == 'tuple':
            return self.mk_tuple([self.fresh_value('%s.%d' % (hint, i), x) for i, x in enumerate(t.a)])
        return V(t, self.fresh(hint, sort_of(t)))

    def caller_allows(self, exc, caller):
        old = self.fr
        self.fr = caller
        try:
            return self.exc_allowed(exc)
        finally:
            self.fr = old

    def spec_bool(self, x):
        self.spec_mode += 1
        try:
            return self.evb(parse_expr(x) if isinstance(x, str) else x)
        finally:
            self.spec_mode -= 1

    def in_old(self, f, fr):
        """evaluate f in the entry state of frame fr"""
        locs, heap, alloc = fr.entry
        sh, sa, sl = self.heap, self.alloc, fr.locals
        self.heap = heap
        self.alloc = alloc
        merged = dict(sl)
        merged.update(locs)
        fr.locals = merged
        try:
            return f()
        finally:
            self.heap, self.alloc, fr.locals = sh, sa, sl

    def ev_old(self, x):
        fr = self.fr
        # bound variables of enclosing quantifiers live in sub frames: find the frame that owns an entry state
        f = fr
        while f is not None and getattr(f, 'entry', None) is None:
            f = f.parent
        if f is None:
            raise Unsupported('old() without entry state', x)
        if f is not fr:
            # sub frames share the entry of their base
            pass
        base = f
        while base.parent is not None and base.parent.key == base.key and getattr(base.parent, 'entry', None) is base.entry:
            base = base.parent
        locs, heap, alloc = base.entry
        sh, sa, sl = self.heap, self.alloc, base.locals
        self.heap, self.alloc = heap, alloc
        merged = dict(sl)
        merged.update(locs)
        base.locals = merged
        try:
            v = self.ev(x)
            # freeze mutable contents as of the old state
            if v.t.k == 'list' and not (v.t.a[0].k == 'tvar' and self.elemtypes.get(v.t.a[0].a[0]) is None):
                q, e = self.as_seq(v)
                r = V(TSeq(e), q)
                r.py = ('oldref', v)
                return r
            if v.t.k == 'set':
                return V(TPSet(v.t.a[0]), self.set_val(v))
            if v.t.k == 'dict':
                kt, vt = self.dtypes(v)
                return V(T('pmap', kt, vt), self.dict_val(v))
            return v
        finally:
            self.heap, self.alloc, base.locals = sh, sa, sl

    # ------------------------------------------------------------ specification functions
    def spec_call(self, sp, args, n):
        ts = [parse_type(t) if t else None for _, t in sp.params]
        if len(args) != len(ts):
            raise Unsupported('%s takes %d arguments' % (sp.name, len(ts)), n)
        vals = [self.coerce(a, t, n) if t is not None else a for a, t in zip(args, ts)]
        if not sp.rec and not sp.opaque:
            fr = self.spec_frame({p: v for (p, _), v in zip(sp.params, vals)})
            fr.globals_ = sp.fn.__globals__
            old = self.fr
            self.fr = fr
            self.spec_mode += 1
            try:
                r = self.spec_body(sp.node.body)
                return self.coerce(r, parse_type(sp.ret), n)
            finally:
                self.fr = old
                self.spec_mode -= 1
        f = self.spec_fn(sp)
        lvl = self.fuel
        hz = []
        for r in sp.reads:
            hz.append(self.harr(self.read_key(r)))
        return V(parse_type(sp.ret), f[lvl](*(hz + [self.tz(v) for v in vals])))

    def read_key(self, r):
        t = r.strip()
        for pre, kk in (('list[', 'L'), ('set[', 'S'), ('dict[', 'D')):
            if t.startswith(pre):
                return (kk,) + tuple(str(x) for x in parse_type(t).a)
        c, _, f = t.rpartition('.')
        return self.hkey_field(c, f)[0]

    def spec_fn(self, sp):
        if sp.name in self.sfn:
            return self.sfn[sp.name]
        ts = [parse_type(t) for _, t in sp.params]
        keys = [self.read_key(r) for r in sp.reads]
        sorts = [self.hsort(k) for k in keys] + [sort_of(t) for t in ts]
        rs = sort_of(parse_type(sp.ret))
        fs = [z3.Function('%s#%d' % (sp.name, i), *(sorts + [rs])) for i in range(3)]
        if not sp.rec:
            fs = [fs[0]] * 3
        self.sfn[sp.name] = fs
        # definition, one unfolding per fuel level
        hv = [z3.Const('h%d!' % i, s) for i, s in enumerate(sorts[:len(keys)])]
        pv = [z3.Const(p + '!', sort_of(t)) for (p, _), t in zip(sp.params, ts)]
        axs = []
        saved = (self.heap, self.facts, self.fr, self.qscope, self.qvars, self.gs, self.fuel, self.spec_mode, self.factset, self.snaps)
        for lvl in ((1, 2) if sp.rec else (2,)):
            self.heap = dict(zip(keys, hv))
            self.facts, self.qscope, self.factset, self.snaps = [], [], set(), []
            self.qvars = hv + pv
            self.gs = z3.Solver()
            self.gs.set('timeout', 100)
            self.fuel = lvl - 1
            self.spec_mode = 1
            fr = self.spec_frame({p: V(t, z) for (p, _), t, z in zip(sp.params, ts, pv)})
            fr.globals_ = sp.fn.__globals__
            self.fr = fr
            try:
                # quantified variables, so that fresh terms inside become functions of the parameters
                b = self.coerce(self.spec_body(sp.node.body), parse_type(sp.ret))
                extra = self.facts
                more = [self.hname(k) for k in self.heap if k not in keys]
                if more:
                    raise Unsupported('specification %s reads %s, which its reads clause does not list' % (sp.name, ', '.join(more)))
            finally:
                facts2 = self.facts
                (self.heap, self.facts, self.fr, self.qscope, self.qvars, self.gs, self.fuel, self.spec_mode, self.factset, self.snaps) = saved
            app = fs[lvl](*(hv + pv))
            body = app == self.tz(b)
            if z3.is_bool(self.tz(b)) and has_quant(self.tz(b)):
                body = z3.And(z3.Implies(app, self.tz(b)), z3.Implies(self.tz(b), app))
            vs = hv + pv
            axs.append(z3.ForAll(vs, zand([body] + facts2), patterns=[app]) if vs else zand([body] + facts2))
            if sp.rec:
                axs.append(z3.ForAll(vs, app == fs[lvl - 1](*vs), patterns=[app]))
        self.specax[sp.name] = ([f.name() for f in fs[1:]], axs)
        return fs

    def extern_call(self, e, args, n):
        ts = [parse_type(t) for t in e.args]
        vals = [self.coerce(a, t, n) for a, t in zip(args, ts)]
        f = self.ext_fn(e)
        self.assumed.add('external function %s%s' % (e.name, ': ' + e.note if e.note else ''))
        zs = [self.tz(v) for v in vals]
        if not self.spec_mode and not self.qvars:
            zs = [self.atom(z) if th.has_ite(z) else z for z in zs]
        r = V(parse_type(e.ret), f(*zs))
        if not self.spec_mode:
            self.assume(self.type_facts(r))
        return r

    def ext_fn(self, e):
        if e.name not in self.extfn:
            self.extfn[e.name] = z3.Function('ext.' + e.name, *([sort_of(parse_type(a)) for a in e.args] + [sort_of(parse_type(e.ret))]))
        return self.extfn[e.name]

    def compile_quantified(self, params, requires, ensures, pats):
        ts = [parse_type(t) for _, t in params]
        pv = [z3.Const(p + '!', sort_of(t)) for (p, _), t in zip(params, ts)]
        saved = (self.heap, self.facts, self.fr, self.qscope, self.qvars, self.gs, self.fuel, self.spec_mode, self.factset, self.snaps)
        self.facts, self.qscope, self.factset = [], [], set()
        self.qvars = list(pv)
        self.gs = z3.Solver()
        self.gs.set('timeout', 100)
        self.fuel = 0
        self.spec_mode = 1
        self.fr = self.spec_frame({p: V(t, z) for (p, _), t, z in zip(params, ts, pv)})
        try:
            rq = [self.evb(parse_expr(x)) for x in requires]
            en = [self.evb(parse_expr(x)) for x in ensures]
            ps = []
            for p in (pats or []):
                e = parse_expr(p) if isinstance(p, str) else None
                if isinstance(e, ast.Tuple):
                    ps.append(z3.MultiPattern(*[self.pat_term(x) for x in e.elts]))
                else:
                    ps.append(self.pat_term(e))
            f2 = self.facts
        finally:
            (self.heap, self.facts, self.fr, self.qscope, self.qvars, self.gs, self.fuel, self.spec_mode, self.factset, self.snaps) = saved
        body = z3.Implies(zand(rq + f2), zand(en)) if rq or f2 else zand(en)
        if not pv:
            return body
        if not ps:
            ps = choose_patterns(pv, body, [])
        return z3.ForAll(pv, body, patterns=ps) if ps else z3.ForAll(pv, body)

    def pat_term(self, x):
        v = self.ev(x)
        z = self.tz(v)
        if z3.is_app(z) and z.decl().name().startswith('single.') and z.num_args() == 1 and isinstance(x, ast.Subscript):
            return z.arg(0)
        return z

    def lemma_axiom(self, name):
        lm = R.lemmas[name]
        k = 'lemma:' + name
        if k not in self.specax:
            self.specax[k] = (None, [])
            self.specax[k] = (None, [self.compile_quantified(lm.params, lm.requires, lm.ensures, lm.pats)])
        return self.specax[k][1]

    def trusted_axioms(self):
        out = []
        for a in R.axioms:
            k = 'axiom:' + a.name
            if k not in self.specax:
                self.specax[k] = (None, [])
                self.specax[k] = (None, [self.compile_quantified(a.params, [], [a.expr], a.pats)])
            out.append((a, self.specax[k][1]))
        return out

    def apply_lemma(self, lm, args, n):
        vals = {}
        for (p, t), a in zip(lm.params, args):
            vals[p] = self.coerce(a, parse_type(t), n)
        self.used_lemmas.add(lm.name)
        fr = self.spec_frame(vals)
        old = self.fr
        self.fr = fr
        try:
            pre = [(self.spec_bool(x), x) for x in lm.requires]
            if self.verifying is lm:
                d1 = self.spec_int(lm.dec)
        finally:
            self.fr = old
        for g, x in pre:
            self.oblige(g, 'lemma-precondition(%s)' % lm.name, n, x[:60])
        if self.verifying is lm:
            self.oblige(z3.And(0 <= self.dec0, d1 < self.dec0), 'lemma-decreases(%s)' % lm.name, n)
        self.fr = fr
        try:
            post = [self.spec_bool(x) for x in lm.ensures]
        finally:
            self.fr = old
        for g in post:
            self.assume(g)

    def spec_int(self, x):
        self.spec_mode += 1
        try:
            return self.ev_int(parse_expr(x))
        finally:
            self.spec_mode -= 1

    def check_dec(self, c, fr, n):
        old = self.fr
        self.fr = fr
        try:
            d = self.spec_int(c.dec_self)
        finally:
            self.fr = old
        self.oblige(z3.And(0 <= d, d < self.dec0), 'decreases', n)

    # ------------------------------------------------------------ verification of one contract
    def verify_contract(self, c):
        fi = self.prog.lookup(c.qual)
        if fi is None or isinstance(fi, ClassInfo):
            raise Unsupported('function %s not found' % c.qual)
        if fi.odd:
            raise Unsupported('decorator %s of %s' % (fi.odd, fi.qual))
        self.verifying = c
        self.used_lemmas = set(c.uses)

        def body():
            fr = Frame(fi, fi.mod, fi.cls, c.key)
            fr.maybe = {}
            fr.base = fr
            fr.contract = c
            fr.raises = dict(c.raises)
            self.fr = fr
            self.inline_stack.append(fr)
            self.allowed = None
            self.ctor_ref = None
            a = fi.node.args
            names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            if a.vararg:
                names.append(a.vararg.arg)
            for i, nm in enumerate(names):
                t = c.args.get(nm)
                if t is None and i == 0 and fi.cls is not None and fi.kind in ('method', 'property'):
                    t = c.selfcls or self.cls_short(fi.cls)
                if t is None and i == 0 and fi.kind == 'classmethod':
                    fr.locals[nm] = V(PY, None, fi.cls)
                    continue
                if t is None:
                    raise Unsupported('no type for argument %s of %s' % (nm, c.qual))
                t = parse_type(t)
                v = self.fresh_value(nm, t)
                fr.locals[nm] = v
                self.assume(self.type_facts(v))
            if fi.mod.is_pyx:
                for x in a.args:
                    if isinstance(x.annotation, ast.Constant) and x.annotation.value in CTYPE_RANGE:
                        ct = x.annotation.value
                        fr.ctypes[x.arg] = ct
                        lo, hi = CTYPE_RANGE[ct]
                        v = fr.locals[x.arg]
                        v.ct = ct
                        self.assume(z3.And(v.z >= lo, v.z <= hi))
            for nm, t in c.locals.items():
                fr.declt[nm] = parse_type(t)
            if fi.name == '__init__' and fi.cls is not None and fi.cls.ctypes:
                self.default_fields(fi.cls, fr.locals[names[0]])
            self.spec_mode += 1
            try:
                for nm, x in c.lets.items():
                    fr.locals[nm] = self.let_value(self.ev(parse_expr(x)))
                for x in c.requires:
                    self.assume(self.evb(parse_expr(x)))
            finally:
                self.spec_mode -= 1
            if self.npaths == 1:
                self.pre_facts = list(self.facts)
            if c.dec_self is not None:
                self.dec0 = self.spec_int(c.dec_self)
            mods = list(c.modifies) + list(c.restores)
            if fi.name in ('__init__', '__cinit__'):
                mods.append(names[0] + '.*')
            al = {}
            for k, r in self.eval_modifies(mods, fr):
                al.setdefault(k, []).append(r)
            self.allowed = al
            fr.entry = (dict(fr.locals), self.snapshot(), self.alloc)
            if 'entry' in c.hints:
                self.ghost(c.hints['entry'])
            try:
                if fi.is_gen:
                    res = self.run_gen(fi, fr)
                else:
                    try:
                        self.exec_block(fi.node.body)
                        res = self.mk_none()
                    except ReturnX as r:
                        res = self.ret_ctype(fi, r.v, fi.node)
            except PyRaise as e:
                self.fr = fr
                conds = []
                for exc, cond in c.raises.items():
                    if exc_matches(e.name, exc):
                        conds.append(z3.BoolVal(True) if cond is None else
                                     self.in_old(lambda: self.spec_bool(cond[1] if isinstance(cond, tuple) else cond), fr))
                self.oblige(zor(conds), 'raise-allowed(%s)' % e.name, e.node, '')
                for x in c.exc_ensures + ['%s == old(%s)' % (y, y) for y in c.restores]:
                    self.check_post(x, e.node, 'exceptional-postcondition')
                raise PathEnd()
            self.fr = fr
            rt = parse_type(c.returns) if c.returns else NONE
            if rt.k != 'none':
                if res.t.k == 'py' and isinstance(res.py, tuple) and res.py[0] in ('range', 'map', 'zip', 'enumerate', 'dictview', 'reversed') and rt.k == 'list':
                    res = self.b_list([res], {}, fi.node)
                try:
                    res = self.coerce(res, rt, fi.node)
                except Unsupported:
                    if c.match is None:
                        raise
                    # a contract variant for one of several result types: the other types must be unreachable
                    self.oblige(z3.BoolVal(False), 'result-type(%s)' % rt, fi.node, str(res.t))
                    raise PathEnd()
            elif res.t.k != 'none' and c.returns == 'none':
                self.oblige(self.is_none(res), 'returns-none', fi.node)
            fr.locals['result'] = res
            if 'exit' in c.hints:
                self.ghost(c.hints['exit'])
            for exc, cond in c.raises.items():
                if isinstance(cond, str):
                    self.oblige(self.in_old(lambda: z3.Not(self.spec_bool(cond)), fr), 'must-raise(%s)' % exc, fi.node, cond[:50])
            # ensures: parameters denote entry values
            for x in c.ensures + ['%s == old(%s)' % (y, y) for y in c.restores]:
                self.check_post(x, fi.node, 'postcondition')
        self.enumerate(body)

    def let_value(self, v):
        # a let with a choice inside gets a name: it may be part of a pattern
        if v.z is not None and v.t.k in ('int', 'seq', 'str', 'bytes') and th.has_ite(v.z):
            return V(v.t, self.atom(v.z))
        return v

    def check_post(self, x, node, kind):
        if self.dry:
            return
        fr = self.fr
        sl = fr.locals
        merged = dict(sl)
        merged.update({k: v for k, v in fr.entry[0].items()})
        if 'result' in sl:
            merged['result'] = sl['result']
        fr.locals = merged
        try:
            g = self.spec_bool(x)
        finally:
            fr.locals = sl
        self.oblige(g, kind, node, x[:90])

    def verify_lemma(self, lm):
        self.verifying = lm
        self.used_lemmas = set(lm.uses)

        def body():
            fr = self.spec_frame({})
            fr.key = 'lemma:' + lm.name
            fr.globals_ = lm.fn.__globals__
            self.fr = fr
            self.allowed = None
            self.inline_stack.append(fr)
            for p, t in lm.params:
                v = self.fresh_value(p, parse_type(t))
                fr.locals[p] = v
            for x in lm.requires:
                self.assume(self.spec_bool(x))
            if self.npaths == 1:
                self.pre_facts = list(self.facts)
            self.dec0 = self.spec_int(lm.dec) if lm.dec else None
            try:
                self.ghost_block(lm.node.body, lm.node)
            except ReturnX:
                pass
            for x in lm.ensures:
                self.oblige(self.spec_bool(x), 'lemma-conclusion', lm.node, x[:90])
        self.enumerate(body)


class _Inner(ast.stmt):
    def __init__(self, run):
        self.run = run
