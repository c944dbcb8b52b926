"""The verification-condition generator: forward symbolic execution of the real source, one function at a time.

Paths are enumerated by re-execution: the interpreter below runs a function body in direct style; every time it meets a branch it
calls choose(), which replays a recorded prefix of choices or extends it.  Loops are cut by invariants, calls to functions with a
contract are replaced by the contract, calls to other repository functions are inlined."""
import ast
import itertools
import time
import z3
from . import theory as th
from .theory import (T, INT, BOOL, NONE, STR, BYTES, PY, TList, TSeq, TSet, TPSet, TDict, TObj, TEnum, TOpt, TTuple, parse_type,
                     sort_of, seqth, is_ref, opt_dt, tup_dt, seq_lit)
from .api import R
from . import frontend
from .frontend import FuncInfo, ClassInfo, Module, CTYPE_RANGE

BIGINF = 10 ** 30


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class Unsupported(Exception):
    def __init__(self, msg, node=None):
        super().__init__('%s%s' % (msg, ' (line %d)' % node.lineno if node is not None and hasattr(node, 'lineno') else ''))


class PyRaise(Exception):
    def __init__(self, name, node=None):
        super().__init__(name)
        self.name, self.node = name, node


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class V:
    __slots__ = ('t', 'z', 'py', 'ct', 'fmt')

    def __init__(self, t, z=None, py=None, ct=None):
        self.t, self.z, self.py, self.ct, self.fmt = t, z, py, ct, None

    def __repr__(self):
        return 'V(%s,%s,%s)' % (self.t, self.z, self.py)


def contains_const(e, v):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.eq(v):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children())
    return False


class TVar(T):
    """element type of a list literal whose element type is not known yet"""

    def __init__(self, site):
        super().__init__('tvar', site)


class Frame:
    def __init__(self, fi, mod, cls, key, parent=None):
        self.locals, self.fi, self.mod, self.cls, self.key, self.parent = {}, fi, mod, cls, key, parent
        self.ctypes = {}
        self.yields = None
        self.loops = 0
        self.contract = None
        self.loopno = {}
        self.ctor = None
        self.handlers = []
        self.counters = []
        self.raises = None
        self.declt = {}
        self.maybe, self.base, self.entry, self.globals_ = {}, self, None, None


class Obl:
    def __init__(self, name, kind, facts, goal, line):
        self.name, self.kind, self.facts, self.goal, self.line = name, kind, facts, goal, line


EXC_PARENT = {'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception', 'ValueError': 'Exception',
              'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError', 'UnicodeError': 'ValueError',
              'TypeError': 'Exception', 'AttributeError': 'Exception', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
              'OverflowError': 'ArithmeticError', 'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
              'StopIteration': 'Exception', 'UnboundLocalError': 'NameError', 'NameError': 'Exception', 'AssertionError': 'Exception',
              'OSError': 'Exception', 'FileNotFoundError': 'OSError', 'IOError': 'OSError', 'RecursionError': 'RuntimeError',
              'Exception': 'BaseException', 'SystemExit': 'BaseException', 'EnvironmentError': 'OSError', 'ImportError': 'Exception',
              'ModuleNotFoundError': 'ImportError', 'error': 'Exception'}


def exc_matches(name, handler):
    while name:
        if name == handler:
            return True
        name = EXC_PARENT.get(name, 'Exception' if name not in ('Exception', 'BaseException') else None)
        if name is None:
            return handler == 'BaseException'
    return False


def zsimp(e):
    return z3.simplify(e)


def zand(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    return z3.BoolVal(True) if not xs else xs[0] if len(xs) == 1 else z3.And(*xs)


def zor(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    return z3.BoolVal(False) if not xs else xs[0] if len(xs) == 1 else z3.Or(*xs)


def const_names(t):
    out, st, seen = set(), [t], set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            st.append(e.body())
        elif z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(e.decl().name())
            st.extend(e.children())
    return out


def intval(t):
    if z3.is_int_value(t):
        return t.as_long()
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else None


def has_quant(e, cache={}):
    k = e.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    res = z3.is_quantifier(e) or any(has_quant(c) for c in e.children())
    cache[k] = (e, res)
    return res


def fkey(e, cache={}, table={}):
    """a number that formulas share if they differ in the names of bound variables only"""
    if not has_quant(e):
        return ('g', e.get_id())
    k = e.get_id()
    r = cache.get(k)
    if r is not None:
        return r[1]
    if z3.is_quantifier(e):
        t = ('q', e.is_forall(), e.is_lambda(), tuple(e.var_sort(i).get_id() for i in range(e.num_vars())), tuple(tuple(fkey(x) for x in e.pattern(i).children()) for i in range(e.num_patterns())), fkey(e.body()))
    else:
        t = ('a', e.decl().get_id(), tuple(fkey(c) for c in e.children()))
    n = table.setdefault(t, len(table))
    cache[k] = (e, n)
    return n


class Base:
    def __init__(self, prog, debug=False):
        self.prog = prog
        self.debug = debug
        self.obls = []
        self.used_contracts = set()
        self.used_inline = set()
        self.assumed = set()
        self.elemtypes = {}
        self.loopinfo = {}
        self.localtypes = {}
        self.specax = {}        # axiom name -> list of z3 (definitions of recursive specs used)
        self.sfn = {}
        self.extfn = {}
        self.class_of_qual = {}
        for n, c in R.classes.items():
            if c.qual:
                self.class_of_qual[c.qual] = n
        self.enum_of_qual = {q: n for n, q in R.enums.items()}
        for n in R.enums:
            th.ENUMS.add(n)
        self.enum_members = {}
        self.contracts_by_qual = {}
        for c in R.contracts.values():
            self.contracts_by_qual.setdefault(c.qual, []).append(c)
        self.spec_mode = 0
        self.qvars = []
        self.trigstack = []
        self.dry = False

    # ------------------------------------------------------------ path driver
    def reset_path(self, prefix):
        self.prefix, self.pos, self.taken = prefix, 0, []
        self.facts = []
        self.heap = {}
        self.namec = {}
        self.gs = z3.Solver()
        self.gs.set('timeout', 150)
        self.gs.set('random_seed', 1)
        self.inline_stack = []
        self.loopstack = []
        self.oldstack = []
        self.allocs = []
        self.initset = {}
        self.obl_c = {}
        self.factset = set()
        self.once = {}
        self.keep = []
        self.known = {}
        self.snaps = []
        self.created = []
        self.frozen = []
        self.qscope = []
        self.alloc0 = z3.Int('alloc0')
        self.alloc = self.alloc0
        self.facts.append(self.alloc0 > 0)
        self.gs.add(self.alloc0 > 0)

    def enumerate(self, body, maxpaths=4000):
        # first find the frames of the loops without the annotations (cheap), then do it in earnest
        self.dry = True
        try:
            self.explore(body, 400)
        except Unsupported:
            pass
        finally:
            self.dry = False
        self.body, self.maxpaths, self.rest = body, maxpaths, []
        self.explore(body, maxpaths)

    def path(self, prefix):
        """explore one path (adding the branches it leaves open to self.work)"""
        self.reset_path(prefix)
        self.npaths += 1
        if self.npaths > self.maxpaths:
            raise Unsupported('more than %d paths' % self.maxpaths)
        try:
            self.body()
        except PathEnd:
            pass

    def restart(self):
        """something was learnt about a loop: begin again (while finding frames: after the other paths)"""
        if self.dry:
            self.again = True
            raise PathEnd()
        raise Restart()

    def explore(self, body, maxpaths):
        t0 = time.time()
        for _ in range(60):
            self.work = [()]
            self.obls = []
            self.npaths = 0
            self.again = False
            try:
                while self.work:
                    if not self.dry and self.npaths and self.patience is not None and time.time() - t0 > self.patience:
                        self.rest = self.work
                        return
                    prefix = self.work.pop()
                    self.reset_path(prefix)
                    self.npaths += 1
                    if self.npaths > maxpaths:
                        raise Unsupported('more than %d paths' % maxpaths)
                    try:
                        body()
                    except PathEnd:
                        pass
                    except Unsupported:
                        if not self.dry:
                            raise
                if self.again:
                    continue
                return
            except Restart:
                continue
        raise Unsupported('loop frame discovery does not converge')

    def frame_fact(self, key, new):
        """what the modifies clause says about an array that was havocked"""
        if self.allowed is None:
            return
        al = self.allowed.get(key, [])
        if None in al:
            return
        r = z3.Int('r!')
        e = z3.Select(new, r)
        self.assume(z3.ForAll([r], z3.Implies(zand([0 < r, r < self.alloc0] + [r != x for x in al]), e == z3.Select(self.entry_heap_arr(key), r)),
                              patterns=[e]))

    def entry_heap_arr(self, key):
        return z3.Const('H0.' + self.hname(key), self.hsort(key))

    def fresh_name(self, hint):
        n = self.namec.get(hint, 0)
        self.namec[hint] = n + 1
        return hint if n == 0 else '%s!%d' % (hint, n)

    def fresh(self, hint, sort):
        nm = self.fresh_name(hint)
        self.created.append(nm)
        if self.qvars:
            f = z3.Function(nm, *([q.sort() for q in self.qvars] + [sort]))
            return f(*self.qvars)
        return z3.Const(nm, sort)

    def assume(self, f, top=False):
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c, top)
            return
        if self.qscope and not top:
            self.qscope[-1][2].append(f)
            if not has_quant(f):
                self.gs.add(f)
            return
        k = fkey(f)
        if k in self.factset:
            return
        self.factset.add(k)
        self.facts.append(f)
        if not has_quant(f):
            self.gs.add(f)

    def choose(self, conds, label=''):
        """conds: list of z3 Bool; returns the index of the branch taken on this path"""
        if self.qvars:
            live = [i for i, c in enumerate(conds) if self.decide(z3.Not(c)) is not True]
            if len(live) == 1:
                self.assume(conds[live[0]])
                return live[0]
            raise Unsupported('branching inside a quantified expression')
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(i)
            self.assume(zsimp(conds[i]))
            return i
        feas = []
        for i, c in enumerate(conds):
            c = zsimp(c)
            if z3.is_false(c):
                continue
            if z3.is_true(c):
                feas.append(i)
                continue
            self.gs.push()
            if not has_quant(c):
                self.gs.add(c)
            r = self.gs.check()
            self.gs.pop()
            if r != z3.unsat:
                feas.append(i)
        if not feas:
            raise PathEnd()
        for i in reversed(feas[1:]):
            self.work.append(tuple(self.taken) + (i,))
        i = feas[0]
        self.pos += 1
        self.taken.append(i)
        self.prefix = tuple(self.taken)
        self.assume(zsimp(conds[i]))
        return i

    def decide(self, c):
        """True / False when the ground path facts settle c, else None"""
        c = zsimp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if has_quant(c):
            return None
        self.gs.push()
        self.gs.add(z3.Not(c))
        r = self.gs.check()
        self.gs.pop()
        if r == z3.unsat:
            return True
        self.gs.push()
        self.gs.add(c)
        r = self.gs.check()
        self.gs.pop()
        if r == z3.unsat:
            return False
        return None

    def recording(self):
        return self.pos >= len(self.prefix)

    def oblige(self, goal, kind, node=None, text=''):
        if self.dry:
            self.assume(goal)
            return
        goal0 = goal
        if z3.is_and(goal):
            for i, c in enumerate(goal.children()):
                self.oblige(c, kind, node, text)
            return
        if not self.qscope and fkey(goal) in self.factset:
            if self.recording():
                self.trivial = getattr(self, 'trivial', 0) + 1
            return
        if self.recording() and not z3.is_true(zsimp(goal)):
            line = getattr(node, 'lineno', 0) if node is not None else 0
            nm = '%s@%s' % (kind, line) + (':' + text if text else '')
            facts = list(self.facts)
            for (_, rng, fs) in self.qscope:
                facts.append(rng)
                facts.extend(fs)
            self.obls.append(Obl(nm, kind, facts, goal, line))
        elif self.recording():
            self.trivial = getattr(self, 'trivial', 0) + 1
        self.assume(goal0)

    def safety(self, cond, exc, node):
        """cond must hold or Python raises exc here"""
        if self.spec_mode:
            return
        if z3.is_true(zsimp(cond)):
            return
        if self.exc_allowed(exc):
            if self.decide(cond) is True:
                return
            if self.choose([cond, z3.Not(cond)]) == 1:
                raise PyRaise(exc, node)
            return
        self.oblige(cond, 'no-' + exc, node, self.short(node))

    def short(self, node):
        try:
            s = ast.unparse(node)
        except Exception:
            return ''
        return s if len(s) < 60 else s[:57] + '...'

    def exc_allowed(self, exc):
        for fr in reversed(self.inline_stack):
            for hs in reversed(fr.handlers):
                for h in hs:
                    if exc_matches(exc, h):
                        return True
            if fr.raises is not None:
                return any(exc_matches(exc, e) for e in fr.raises)
        return False

    # ------------------------------------------------------------ heap
    def hkey_field(self, cname, fname):
        c = R.classes.get(cname)
        seen = []
        st = [cname]
        while st:
            n = st.pop(0)
            c = R.classes.get(n)
            if c is None:
                continue
            if fname in c.fields:
                return ('f', n, fname), parse_type(c.fields[fname])
            st.extend(c.bases)
        dyn = self.elemtypes.get(('dynfield', cname, fname))
        if dyn is not None:
            return ('f', cname, fname), dyn
        return None, None

    def hsort(self, key):
        if key[0] == 'f':
            c = R.classes[key[1]]
            t = parse_type(c.fields[key[2]]) if key[2] in c.fields else self.elemtypes[('dynfield', key[1], key[2])]
            return z3.ArraySort(z3.IntSort(), sort_of(t))
        if key[0] == 'L':
            return z3.ArraySort(z3.IntSort(), seqth(sort_of(parse_type(key[1]))).S)
        if key[0] == 'S':
            return z3.ArraySort(z3.IntSort(), sort_of(TPSet(parse_type(key[1]))))
        if key[0] == 'D':
            return z3.ArraySort(z3.IntSort(), sort_of(T('pmap', parse_type(key[1]), parse_type(key[2]))))
        raise KeyError(key)

    def hname(self, key):
        return '.'.join(map(str, key))

    def harr(self, key):
        a = self.heap.get(key)
        if a is None:
            # first touch: the array of the function entry (shared with every older snapshot)
            nm = 'H0.' + self.hname(key)
            a = z3.Const(nm, self.hsort(key))
            self.heap[key] = a
            for snap in self.snaps:
                snap.setdefault(key, a)
            self.harr_axiom(key, a, self.alloc0)
        return a

    def harr_axiom(self, key, a, alloc):
        """references stored in the heap are allocated"""
        x, i = z3.Ints('x! i!')
        if key[0] == 'f':
            t = parse_type(R.classes[key[1]].fields[key[2]]) if key[2] in R.classes[key[1]].fields else self.elemtypes[('dynfield', key[1], key[2])]
            if is_ref(t):
                e = z3.Select(a, x)
                lo = e >= 0 if t.k == 'opt' else e > 0
                self.assume(z3.ForAll([x], z3.Implies(z3.And(0 < x, x < alloc), z3.And(lo, e < alloc)), patterns=[e]), top=True)
        elif key[0] == 'L':
            t = parse_type(key[1])
            if is_ref(t):
                s = seqth(z3.IntSort())
                l = z3.Select(a, x)
                e = s.idx(l, i)
                lo = e >= 0 if t.k == 'opt' else e > 0
                self.assume(z3.ForAll([x, i], z3.Implies(z3.And(0 < x, x < alloc, 0 <= i, i < s.len(l)), z3.And(lo, e < alloc)),
                                      patterns=[e]), top=True)

    def hread(self, key, ref):
        a = self.harr(key)
        return self.rd(a, ref)

    def distinct(self, a, b):
        d = z3.simplify(a - b)
        if z3.is_int_value(d) and d.as_long() != 0:
            return True
        return False

    def rd(self, a, ref):
        while z3.is_store(a):
            j = a.arg(1)
            if j.eq(ref) or z3.simplify(j - ref).eq(z3.IntVal(0)):
                return a.arg(2)
            dec = not self.qvars or not any(contains_const(x, v) for x in (j, ref) for v in self.qvars)
            if self.distinct(j, ref) or (dec and self.decide(j != ref) is True):
                a = a.arg(0)
                continue
            if dec and self.decide(j == ref) is True:
                return a.arg(2)
            break
        return z3.Select(a, ref)

    def hwrite(self, key, ref, val, node=None):
        if self.qvars:
            raise Unsupported('heap write inside a quantified expression', node)
        a = self.harr(key)
        for (k, r) in self.frozen:
            if k == key and not self.distinct(r, ref):
                self.oblige(r != ref, 'shared set', node, 'a set that is shared as a value is not modified')
        self.check_write(key, ref, node)
        self.note_write(key, ref)
        self.heap[key] = z3.Store(a, ref, val)

    def check_write(self, key, ref, node=None):
        """frame condition: the write is to a new object or allowed by the modifies clause of the function being verified"""
        if self.allowed is None:
            return
        al = self.allowed.get(key, [])
        if None in al:
            return
        if ref is None:
            self.oblige(z3.BoolVal(False), 'modifies', node, self.hname(key))
            return
        if any(ref.eq(a) for a in self.allocs) or any(ref.eq(r) for r in al):
            return
        self.oblige(zor([ref >= self.alloc0] + [ref == r for r in al]), 'modifies', node, self.hname(key))

    def note_write(self, key, ref):
        """register the write with every enclosing loop; ref None = unknown set of refs"""
        for lp in self.loopstack:
            mods = lp.info['mods']
            if ref is not None and self.is_fresh_since(ref, lp):
                kind = 'fresh'
            elif ref is not None and self.is_stable(ref, lp):
                kind = ('ref', ref.sexpr())
                lp.info['terms'][ref.sexpr()] = ref
            else:
                kind = 'all'
            cur = mods.setdefault(key, set())
            if kind not in cur and 'all' not in cur:
                cur.add(kind)
                lp.info['changed'] = True

    def is_fresh_since(self, ref, lp):
        if any(ref.eq(a) for a in self.allocs[lp.nalloc:]):
            return True
        return False

    def is_stable(self, ref, lp):
        new = set(self.created[lp.ncreated:])
        return not (new & const_names(ref))

    # ------------------------------------------------------------ allocation
    def new_ref(self, hint='new'):
        if self.qvars:
            raise Unsupported('allocation inside a quantified expression')
        r = self.alloc
        self.allocs.append(r)
        self.alloc = z3.simplify(r + 1)
        return r

    def new_list(self, elt, content):
        r = self.new_ref()
        key = ('L', str(elt))
        a = self.harr(key)
        # prophecy: the array at an unallocated reference already holds the initial contents
        self.assume(self.rd(a, r) == content)
        self.prophecy(key, r, content)
        return V(TList(elt), r)

    def prophecy(self, key, r, content):
        self.heap[key] = self.heap[key]
        self.known.setdefault(key, []).append((self.heap[key], r, content))

    def list_content(self, v):
        """z3 sequence held by a list value"""
        if v.t.k == 'seq' or v.t.k in ('str', 'bytes'):
            return v.z
        if v.t.k == 'opt':
            return self.list_content(V(v.t.a[0], v.z))
        key = ('L', str(self.elt(v)))
        a = self.harr(key)
        r = self.rd(a, v.z)
        if z3.is_select(r):
            for (arr, ref, content) in self.known.get(key, ()):
                if arr.eq(r.arg(0)) and ref.eq(r.arg(1)):
                    return content
        return r

    def elt(self, v):
        e = v.t.a[0]
        if e.k == 'tvar':
            k = self.elemtypes.get(e.a[0])
            if k is None:
                raise Unsupported('element type of list literal not known')
            return k
        return e

    def set_elt(self, v, t):
        """fix the element type of a list literal; restarts the enumeration when it was unknown"""
        e = v.t.a[0]
        if e.k == 'tvar':
            if self.elemtypes.get(e.a[0]) is None:
                if t.k in ('tvar', 'none'):
                    raise Unsupported('cannot infer list element type')
                self.elemtypes[e.a[0]] = t
                self.restart()

    def th_of(self, v):
        if v.t.k in ('str', 'bytes'):
            return seqth(z3.IntSort())
        if v.t.k == 'opt':
            return self.th_of(V(v.t.a[0], v.z))
        return seqth(sort_of(self.elt(v) if v.t.k == 'list' else v.t.a[0]))

    def as_seq(self, v, node=None):
        """(z3 sequence, element type) of an iterable/indexable value"""
        k = v.t.k
        if k == 'opt':
            return self.as_seq(self.unopt(v, node), node)
        if k == 'str':
            return v.z, STR
        if k == 'bytes':
            return v.z, INT
        if k == 'list':
            e = self.elt(v)
            return self.list_content(V(TList(e), v.z)), e
        if k == 'seq':
            return v.z, v.t.a[0]
        if k == 'json':
            w = self.coerce(v, TSeq(STR), node)
            return w.z, STR
        if k == 'tuple':
            vs = self.tuple_items(v)
            if not vs:
                return seqth(z3.IntSort()).empty, INT
            t = vs[0].t
            for x in vs[1:]:
                t = self.join_type(t, x.t)
            vs = [self.coerce(x, t, node) for x in vs]
            return seqth(sort_of(t)).lit([x.z for x in vs]), t
        if k in ('set', 'pset'):
            return self.set_elems(v), v.t.a[0]
        if k == 'dict':
            return self.dict_keys(v), v.t.a[0]
        raise Unsupported('not iterable: %s' % v.t, node)

    def set_val(self, v):
        return self.rd(self.harr(('S', str(v.t.a[0]))), v.z) if v.t.k == 'set' else v.z

    def set_elems(self, v):
        s = self.set_val(v)
        e = v.t.a[0]
        tth = seqth(sort_of(e))
        key = ('setelems', s.get_id(), v.z.get_id() if v.t.k != 'pset' else 0)
        q = self.once.get(key)
        if q is None:
            if v.t.k == 'pset':
                # iteration order of an immutable set: a function of its value
                q = z3.Function('elems.%s' % sort_of(e), s.sort(), tth.S)(s)
            else:
                q = self.fresh('elems', tth.S)
            self.once[key] = q
            self.keep.append((s, v))
            i, j = z3.Ints('i! j!')
            x = z3.Const('x!', sort_of(e))
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tth.len(q)), z3.Select(s, tth.idx(q, i))), patterns=[tth.idx(q, i)]))
            self.assume(z3.ForAll([x], z3.Implies(z3.Select(s, x), tth.has(q, x)), patterns=[z3.Select(s, x)]))
            self.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < tth.len(q)), tth.idx(q, i) != tth.idx(q, j)),
                                  patterns=[z3.MultiPattern(tth.idx(q, i), tth.idx(q, j))]))
            if e.k == 'enum':
                self.assume((tth.len(q) == 0) == zand([z3.Not(z3.Select(s, m)) for m in self.enum_ids(e)]))
        return q

    def enum_ids(self, e):
        return [z3.IntVal(i) for i in range(len(self.enum_list(e.a[0])))]

    # ------------------------------------------------------------ type facts
    def type_facts(self, v, depth=0):
        """facts every value of the declared type satisfies"""
        t, z = v.t, v.z
        if z is None:
            return z3.BoolVal(True)
        if t.k in ('obj', 'list', 'set', 'dict'):
            return z3.And(z > 0, z < self.alloc)
        if t.k == 'opt' and is_ref(t):
            return z3.And(z >= 0, z < self.alloc)
        if t.k == 'enum':
            n = len(self.enum_list(t.a[0]))
            return z3.And(z >= 0, z < n)
        if t.k == 'tuple':
            return zand([self.type_facts(x) for x in self.tuple_items(v)])
        if t.k == 'bytes' and z3.is_app(z) and not self.qvars:
            k = ('bytes', z.get_id())
            if k not in self.once:
                self.once[k] = z
                s = seqth(z3.IntSort())
                i = z3.Int('i!')
                if z3.is_const(z) or z.decl().kind() == z3.Z3_OP_SELECT or z.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.len(z)), z3.And(0 <= s.idx(z, i), s.idx(z, i) < 256)),
                                     patterns=[s.idx(z, i)])
        if t.k == 'str' and not self.qvars:
            k = ('str', z.get_id())
            if k not in self.once and (z3.is_const(z) or z.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED)):
                self.once[k] = z
                s = seqth(z3.IntSort())
                i = z3.Int('i!')
                return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.len(z)), z3.And(0 <= s.idx(z, i), s.idx(z, i) < 0x110000)),
                                 patterns=[s.idx(z, i)])
        return z3.BoolVal(True)

    def enum_list(self, name):
        if name not in self.enum_members:
            q = R.enums[name]
            ci = self.prog.lookup(q)
            if ci is not None and isinstance(ci, ClassInfo):
                self.enum_members[name] = [k for k in ci.consts]
            else:
                # functional API: X = Enum("X", "A B C")
                owner = self.prog.lookup(q.rsplit('.', 1)[0])
                e = None
                if isinstance(owner, ClassInfo):
                    e = owner.consts.get(q.rsplit('.', 1)[1])
                else:
                    m = self.prog.module(q.rsplit('.', 1)[0])
                    e = m.consts.get(q.rsplit('.', 1)[1]) if m else None
                if e is None:
                    raise Unsupported('enum %s not found' % q)
                self.enum_members[name] = e.args[1].value.split()
        return self.enum_members[name]

    # ------------------------------------------------------------ values
    def mk_int(self, n):
        return V(INT, z3.IntVal(n))

    def mk_bool(self, b):
        return V(BOOL, z3.BoolVal(b))

    def mk_none(self):
        return V(NONE, z3.IntVal(0))

    def mk_str(self, s):
        return V(STR, self.lit(tuple(ord(c) for c in s)), py=None)

    def lit(self, vals):
        s = seqth(z3.IntSort())
        if len(vals) == 0:
            return s.empty
        if len(vals) == 1:
            return s.single_(z3.IntVal(vals[0]))
        return seq_lit(vals, 'c')

    def mk_bytes(self, b):
        return V(BYTES, self.lit(tuple(b)))

    def tuple_items(self, v):
        if v.py is not None and isinstance(v.py, list):
            return v.py
        dt = tup_dt([sort_of(x) for x in v.t.a])
        return [V(t, dt.accessor(0, i)(v.z) if not (z3.is_app(v.z) and v.z.decl().eq(dt.constructor(0))) else v.z.arg(i))
                for i, t in enumerate(v.t.a)]

    def mk_tuple(self, vs):
        return V(TTuple(*[x.t for x in vs]), None, py=list(vs))

    def tz(self, v):
        """z3 term of a value (builds tuple terms)"""
        if v.t.k == 'tuple' and v.z is None:
            dt = tup_dt([sort_of(x.t) for x in v.py])
            v.z = dt.constructor(0)(*[self.tz(x) for x in v.py])
        if v.z is None:
            raise Unsupported('value has no term: %s %s' % (v.t, v.py))
        return v.z

    def join_type(self, a, b):
        if a == b:
            return a
        if a.k == 'tvar':
            return b
        if b.k == 'tvar':
            return a
        if a.k == 'none':
            return TOpt(b)
        if b.k == 'none':
            return TOpt(a)
        if a.k == 'opt' or b.k == 'opt':
            return TOpt(self.join_type(a.a[0] if a.k == 'opt' else a, b.a[0] if b.k == 'opt' else b))
        if {a.k, b.k} == {'int', 'bool'}:
            return INT
        if a.k == 'list' and b.k == 'list':
            return TList(self.join_type(a.a[0], b.a[0]))
        if a.k == 'obj' and b.k == 'obj':
            for x, y in ((a, b), (b, a)):
                if self.is_subclass(x.a[0], y.a[0]):
                    return y
        raise Unsupported('no common type of %s and %s' % (a, b))

    def is_subclass(self, a, b):
        if a == b:
            return True
        c = R.classes.get(a)
        return c is not None and any(self.is_subclass(x, b) for x in c.bases)

    def unopt(self, v, node=None, exc='TypeError'):
        if v.t.k != 'opt':
            if v.t.k == 'none':
                self.safety(z3.BoolVal(False), exc, node)
                if self.spec_mode:
                    raise Unsupported('None used as a value in a spec', node)
                raise PathEnd()
            return v
        t = v.t.a[0]
        if is_ref(t):
            self.safety(v.z != 0, exc, node)
            return V(t, v.z)
        dt = opt_dt(sort_of(t))
        self.safety(dt.recognizer(1)(v.z), exc, node)
        if z3.is_app(v.z) and v.z.decl().eq(dt.constructor(1)):
            return V(t, v.z.arg(0))
        return V(t, dt.accessor(1, 0)(v.z))

    def is_none(self, v):
        if v.t.k == 'none':
            return z3.BoolVal(True)
        if v.t.k != 'opt':
            return z3.BoolVal(False)
        if is_ref(v.t):
            return v.z == 0
        return opt_dt(sort_of(v.t.a[0])).recognizer(0)(v.z)

    def coerce(self, v, t, node=None):
        if v.t == t:
            return v
        if t.k == 'py':
            return v
        if t.k == 'tvar':
            return v
        if t.k == 'opt':
            u = t.a[0]
            if v.t.k == 'none':
                if is_ref(t):
                    return V(t, z3.IntVal(0))
                return V(t, opt_dt(sort_of(u)).constructor(0)())
            if v.t.k == 'opt':
                if is_ref(t):
                    return V(t, v.z)
                if v.t.a[0] == u:
                    return V(t, v.z)
                raise Unsupported('cannot convert %s to %s' % (v.t, t), node)
            w = self.coerce(v, u, node)
            if is_ref(t):
                return V(t, w.z)
            return V(t, opt_dt(sort_of(u)).constructor(1)(self.tz(w)))
        if v.t.k == 'opt':
            return self.coerce(self.unopt(v, node), t, node)
        if v.t.k == 'json':
            k, f = {'str': (1, 'jstr'), 'seq': (2, 'jlist')}.get(t.k, (0, ''))
            if k:
                self.safety(self.extern_call(R.externs['jkind'], [v], node).z == k, 'TypeError', node)
                return self.coerce(self.extern_call(R.externs[f], [v], node), t, node)
        if t.k == 'json' and v.t.k == 'str':
            r = self.extern_call(R.externs['jof'], [v], node)
            return r
        if t.k == 'int' and v.t.k == 'bool':
            return V(INT, z3.If(v.z, z3.IntVal(1), z3.IntVal(0)))
        if t.k == 'bool' and v.t.k == 'int' and self.spec_mode:
            return V(BOOL, v.z != 0)
        if t.k == 'list' and v.t.k == 'list':
            e = v.t.a[0]
            if e.k == 'tvar':
                if self.elemtypes.get(e.a[0]) is None:
                    self.set_elt(v, t.a[0])
                e = self.elemtypes[e.a[0]]
            if e == t.a[0]:
                return V(t, v.z)
            if e.k == 'obj' and t.a[0].k == 'obj' and self.is_subclass(e.a[0], t.a[0].a[0]):
                raise Unsupported('list covariance', node)
            raise Unsupported('cannot convert %s to %s' % (v.t, t), node)
        if t.k == 'obj' and v.t.k == 'obj':
            if self.is_subclass(v.t.a[0], t.a[0]) or self.is_subclass(t.a[0], v.t.a[0]):
                return V(t, v.z)
        if t.k == 'tuple' and v.t.k == 'tuple' and len(t.a) == len(v.t.a):
            return self.mk_tuple([self.coerce(x, u, node) for x, u in zip(self.tuple_items(v), t.a)])
        if t.k == 'seq':
            if v.t.k in ('list', 'tuple', 'str', 'bytes'):
                if v.t.k in ('str', 'bytes') and t.a[0].k == 'int':
                    return V(t, v.z)
                s, e = self.as_seq(v, node)
                if e == t.a[0] or (v.t.k == 'tuple' and not v.t.a) or sort_of(e) == sort_of(t.a[0]):
                    if sort_of(e) == sort_of(t.a[0]):
                        return V(t, s)
                    return V(t, seqth(sort_of(t.a[0])).empty)
            if v.t.k == 'seq' and sort_of(v.t) == sort_of(t):
                return V(t, v.z)
        if t.k in ('str', 'bytes') and v.t.k == 'seq' and sort_of(v.t) == sort_of(t):
            return V(t, v.z)
        if t.k == 'pset' and v.t.k == 'set':
            if not self.spec_mode:
                # from here on the object is treated as a value: it must not be written any more
                for lp in self.loopstack:
                    if not self.is_fresh_since(v.z, lp):
                        raise Unsupported('a set from outside the loop is shared as a value', node)
                self.frozen.append((('S', str(v.t.a[0])), v.z))
            return V(t, self.set_val(v))
        if t.k == 'int' and v.t.k == 'enum' or t.k == 'enum' and v.t.k == 'int' and self.spec_mode:
            return V(t, v.z)
        if t.k == 'tuple' and v.t.k in ('list', 'seq') and self.spec_mode == 0:
            pass
        if t.k == 'dict' and v.t.k == 'dict' and v.t.a[0].k == 'tvar':
            site = v.t.a[0].a[0]
            if self.elemtypes.get(site) is None:
                self.elemtypes[site] = t
                self.restart()
            if self.elemtypes[site] == t:
                return V(t, v.z)
        if t.k == 'set' and v.t.k == 'set' and v.t.a[0].k == 'tvar':
            site = v.t.a[0].a[0]
            if self.elemtypes.get(site) is None:
                self.elemtypes[site] = t
                self.restart()
        if t.k == 'none' and v.t.k != 'none' and not self.spec_mode:
            return v
        raise Unsupported('cannot convert %s to %s' % (v.t, t), node)

    def truth(self, v, node=None):
        k = v.t.k
        if k == 'bool':
            return v.z
        if k == 'json':
            return self.extern_call(R.externs['jtrue'], [v], node).z
        if k == 'int':
            return v.z != 0
        if k == 'none':
            return z3.BoolVal(False)
        if k in ('str', 'bytes', 'seq'):
            s = self.th_of(v)
            return s.lenof(v.z) != 0
        if k == 'list':
            if v.t.a[0].k == 'tvar' and self.elemtypes.get(v.t.a[0].a[0]) is None:
                return z3.BoolVal(False)
            return self.th_of(v).lenof(self.list_content(v)) != 0
        if k == 'tuple':
            return z3.BoolVal(len(v.t.a) > 0)
        if k == 'enum':
            return z3.BoolVal(True)
        if k == 'opt':
            u = self.spec_mode
            self.spec_mode += 1
            try:
                inner = self.truth(self.unopt(v, node), node)
            finally:
                self.spec_mode = u
            return zand([z3.Not(self.is_none(v)), inner])
        if k == 'obj':
            c = R.classes.get(v.t.a[0])
            ci = self.prog.lookup(c.qual) if c and c.qual else None
            if ci is not None:
                for m in ('__bool__', '__len__'):
                    f = self.find_method(ci, m)
                    if f is not None:
                        r = self.call_function(f, [v], {}, node)
                        return self.truth(r, node)
            return z3.BoolVal(True)
        if k in ('set', 'pset') and v.t.a[0].k == 'enum':
            s = self.set_val(v)
            return zor([z3.Select(s, m) for m in self.enum_ids(v.t.a[0])])
        if k in ('set', 'pset'):
            q = self.set_elems(v)
            return seqth(sort_of(v.t.a[0])).len(q) != 0
        if k == 'dict':
            return seqth(sort_of(v.t.a[0])).len(self.dict_keys(v)) != 0
        if k == 'py':
            if isinstance(v.py, tuple) and v.py[0] == 'sdict':
                return z3.BoolVal(len(v.py[1]) > 0)
            return z3.BoolVal(True)
        raise Unsupported('truth of %s' % v.t, node)

    def equal(self, a, b, node=None):
        if a.t.k == 'none' or b.t.k == 'none':
            return self.is_none(a if b.t.k == 'none' else b)
        if a.t.k == 'opt' or b.t.k == 'opt':
            if a.t == b.t and not is_ref(a.t):
                pass
            if a.t.k == 'opt' and b.t.k == 'opt' and is_ref(a.t) and a.t.a[0].k == 'obj':
                return a.z == b.z
            na, nb = self.is_none(a), self.is_none(b)
            u = self.spec_mode
            self.spec_mode += 1
            try:
                inner = self.equal(self.unopt(a), self.unopt(b), node)
            finally:
                self.spec_mode = u
            return z3.Or(z3.And(na, nb), z3.And(z3.Not(na), z3.Not(nb), inner))
        ka, kb = a.t.k, b.t.k
        if ka in ('int', 'bool') and kb in ('int', 'bool'):
            if ka == kb:
                return a.z == b.z
            return self.coerce(a, INT).z == self.coerce(b, INT).z
        if ka in ('enum', 'json') and kb == ka:
            return a.z == b.z
        if 'json' in (ka, kb) and 'str' in (ka, kb):
            return self.coerce(a, b.t).z == b.z if ka == 'json' else self.coerce(b, a.t).z == a.z
        if ka in ('str', 'bytes', 'seq', 'list') and kb in ('str', 'bytes', 'seq', 'list', 'tuple') or ka == 'tuple' and kb in ('seq', 'list'):
            if {ka, kb} == {'str', 'bytes'}:
                return z3.BoolVal(False)
            if (ka in ('str', 'bytes') and kb == 'list') or (kb in ('str', 'bytes') and ka == 'list'):
                return z3.BoolVal(False)
            for x, y in ((a, b), (b, a)):
                if x.t.k == 'tuple' and not x.t.a or (x.t.k == 'list' and x.t.a[0].k == 'tvar' and self.elemtypes.get(x.t.a[0].a[0]) is None):
                    return z3.Not(self.truth(y))
            sa, ea = (a.z, INT) if ka in ('str', 'bytes') else self.as_seq(a)
            sb, eb = (b.z, INT) if kb in ('str', 'bytes') else self.as_seq(b)
            if sort_of(ea) != sort_of(eb):
                raise Unsupported('comparing sequences of %s and %s' % (ea, eb), node)
            return self.seq_eq(sa, sb)
        if ka == 'tuple' and kb == 'tuple':
            if len(a.t.a) != len(b.t.a):
                return z3.BoolVal(False)
            return zand([self.equal(x, y) for x, y in zip(self.tuple_items(a), self.tuple_items(b))])
        if ka == 'obj' and kb == 'obj':
            c = R.classes.get(a.t.a[0])
            ci = self.prog.lookup(c.qual) if c and c.qual else None
            f = self.find_method(ci, '__eq__') if ci else None
            if f is not None and not self.spec_mode:
                return self.truth(self.call_function(f, [a, b], {}, node), node)
            return a.z == b.z
        if ka == 'set' and kb == 'set' or ka == 'pset' or kb == 'pset':
            return self.set_val(a) == self.set_val(b)
        if ka == 'py' and kb == 'py':
            return z3.BoolVal(a.py == b.py)
        if ka == 'dict' and kb == 'dict':
            return self.rd(self.harr(self.dkey(a)), a.z) == self.rd(self.harr(self.dkey(b)), b.z)
        if ka != kb:
            return z3.BoolVal(False)
        raise Unsupported('== on %s and %s' % (a.t, b.t), node)

    def seq_eq(self, a, b):
        s = th.seq_of_term(a)
        if a.decl().eq(s.single_) and b.decl().eq(s.single_):
            return th.eq_terms(a.arg(0), b.arg(0))
        la, lb = s.lenof(a), s.lenof(b)
        if z3.is_int_value(la) and z3.is_int_value(lb) and la.as_long() != lb.as_long():
            return z3.BoolVal(False)
        return s.eq(a, b)

    def identical(self, a, b, node=None):
        if a.t.k == 'none' or b.t.k == 'none':
            return self.is_none(a if b.t.k == 'none' else b)
        if is_ref(a.t) and is_ref(b.t):
            return a.z == b.z
        if a.t.k == 'py' or b.t.k == 'py':
            return z3.BoolVal(a.t.k == b.t.k and a.py == b.py)
        if a.t.k in ('bool', 'enum', 'int') and b.t.k == a.t.k:
            return a.z == b.z
        if a.t.k == 'opt' and b.t.k == 'opt' or a.t.k in ('enum', 'opt') and b.t.k in ('enum', 'opt'):
            return self.equal(a, b)
        if a.t.k != b.t.k:
            return z3.BoolVal(False)
        raise Unsupported('is on %s' % a.t, node)

    # ------------------------------------------------------------ dicts (content: tuple(dom, val); key order by an uninterpreted function)
    def dkey(self, v):
        if v.t.a[0].k == 'tvar':
            t = self.elemtypes.get(v.t.a[0].a[0])
            if t is None:
                raise Unsupported('dict element types not known')
            return ('D', str(t.a[0]), str(t.a[1]))
        return ('D', str(v.t.a[0]), str(v.t.a[1]))

    def dtypes(self, v):
        t = v.t
        if t.a[0].k == 'tvar':
            t = self.elemtypes[t.a[0].a[0]]
        return t.a[0], t.a[1]

    def dict_val(self, v):
        key = self.dkey(v)
        r = self.rd(self.harr(key), v.z)
        if z3.is_select(r):
            for (arr, ref, content) in self.known.get(key, ()):
                if arr.eq(r.arg(0)) and ref.eq(r.arg(1)):
                    return content
        return r

    def dict_parts(self, v):
        kt, vt = self.dtypes(v)
        c = self.dict_val(v)
        return self.pm_parts(c)

    def pm_parts(self, c):
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            return c.arg(0), c.arg(1)
        s = c.sort()
        return s.accessor(0, 0)(c), s.accessor(0, 1)(c)

    def dict_keys(self, v):
        kt, vt = self.dtypes(v)
        dom, _ = self.dict_parts(v)
        return self.set_elems(V(TPSet(kt), dom))
