"""Registry of contracts, spec functions, lemmas and trusted axioms.  No z3 here: the same files are imported by the concrete
replay harness, where spec functions run as ordinary Python."""
import ast
import inspect
import textwrap


class Registry:
    def __init__(self):
        self.classes = {}      # short name -> ClassDecl
        self.contracts = {}    # qualified name -> Contract
        self.specs = {}        # name -> SpecFn
        self.lemmas = {}       # name -> Lemma
        self.externs = {}      # name -> Extern
        self.axioms = []       # trusted axioms
        self.enums = {}        # short name -> qualified name
        self.models = {}       # external dotted name -> qualified name of model class/function in a ghost module
        self.assumptions = []
        self.globals_ = {}     # qualified name of a module/class constant -> declared object type
        self.cached = set()    # functions whose lru_cache is assumed transparent
        self.consts = {}       # named integer/string constants usable in specifications


        self.ghosts = {}       # ghost module name -> path


R = Registry()


class ClassDecl:
    def __init__(self, name, qual, fields, bases=(), ext=False, ctypes=None, truthy=True):
        self.name, self.qual, self.fields, self.bases, self.ext = name, qual, fields, bases, ext
        self.ctypes = ctypes or {}
        self.truthy = truthy


def cls(name, qual=None, fields=None, bases=(), ext=False, truthy=True):
    R.classes[name] = ClassDecl(name, qual, fields or {}, bases, ext or qual is None, truthy=truthy)


def enum(name, qual):
    R.enums[name] = qual


class Contract:
    def __init__(self, qual, args=None, returns=None, requires=(), ensures=(), modifies=(), raises=None, exc_ensures=(), inv=(), dec=(),
                 hints=None, selfcls=None, uses=(), trusted=False, lets=None, locals=None, inline=(), timeout=None, note='', yields=None,
                 key=None, pure=False, inline_only=False, match=None, noreturn=False, spec_result=None, dec_self=None, restores=()):
        self.qual, self.args, self.returns = qual, args or {}, returns
        self.requires, self.ensures, self.modifies = list(requires), list(ensures), list(modifies)
        self.raises = raises or {}
        self.exc_ensures = list(exc_ensures)
        self.inv = dict(inv) if isinstance(inv, dict) else list(inv)
        self.dec = dec or {}
        self.hints = hints or {}
        self.selfcls = selfcls
        self.uses = list(uses)
        self.trusted, self.lets, self.locals = trusted, lets or {}, locals or {}
        self.timeout, self.note = timeout, note
        self.key = key or qual
        self.pure = pure
        self.restores = list(restores)
        for k in self.hints:
            if not (k in ('entry', 'exit') or k.startswith(('before:', 'after:')) or k.startswith('loop') and k.split('.')[-1] in ('before', 'head', 'body', 'end', 'exit', 'break')):
                raise ValueError('hint key %s' % k)
        self.inline_only, self.match, self.noreturn, self.spec_result, self.dec_self = inline_only, match, noreturn, spec_result, dec_self


def contract(qual, **kw):
    c = Contract(qual, **kw)
    R.contracts[c.key] = c
    return c


class SpecFn:
    def __init__(self, fn, node, params, ret, rec, reads, opaque, fuel, uses):
        self.fn, self.node, self.params, self.ret, self.rec, self.reads, self.opaque, self.fuel = fn, node, params, ret, rec, reads, opaque, fuel
        self.name = fn.__name__


def _fn_ast(fn):
    src = textwrap.dedent(inspect.getsource(fn))
    return ast.parse(src).body[0]


def _params(node):
    out = []
    for a in node.args.args:
        out.append((a.arg, a.annotation.value if a.annotation is not None else None))
    return out


def spec(fn=None, *, rec=False, reads=(), opaque=False, fuel=1, ghost=False):
    def deco(f):
        node = _fn_ast(f)
        ret = node.returns.value if node.returns is not None else 'bool'
        s = SpecFn(f, node, _params(node), ret, rec, list(reads), opaque, fuel, ())
        if s.name in R.specs or s.name in R.externs:
            raise ValueError('two specifications named ' + s.name)
        R.specs[s.name] = s
        return f
    return deco(fn) if fn is not None else deco


class Lemma:
    def __init__(self, fn, node, params, requires, ensures, dec, pats, uses, timeout):
        self.fn, self.node, self.params, self.requires, self.ensures = fn, node, params, list(requires), list(ensures)
        self.dec, self.pats, self.uses, self.timeout = dec, pats, list(uses), timeout
        self.name = fn.__name__


def lemma(requires=(), ensures=(), dec=None, pats=None, uses=(), timeout=None):
    def deco(f):
        node = _fn_ast(f)
        if f.__name__ in R.lemmas:
            raise ValueError('two lemmas named ' + f.__name__)
        R.lemmas[f.__name__] = Lemma(f, node, _params(node), requires, ensures, dec, pats, uses, timeout)
        return f
    return deco


class Extern:
    def __init__(self, name, args, ret, py, note):
        self.name, self.args, self.ret, self.py, self.note = name, args, ret, py, note


def extern(name, args, ret, py=None, note=''):
    R.externs[name] = Extern(name, args, ret, py, note)
    return py


class Axiom:
    def __init__(self, name, params, expr, pats, note):
        self.name, self.params, self.expr, self.pats, self.note = name, params, expr, pats, note


def axiom(name, params, expr, pats=None, note=''):
    """A trusted fact about external functions.  Listed in the evidence as an assumption."""
    R.axioms.append(Axiom(name, params, expr, pats, note))


def model(ext, qual):
    """The external name `ext` is represented by the ghost model class/function `qual` (assumed contract on a dependency)."""
    R.models[ext] = qual


def ghost_module(name, path):
    import os
    R.ghosts[name] = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', path)


# ---- concrete meaning of the spec-only builtins
def implies(a, b): return (not a) or b
def iff(a, b): return bool(a) == bool(b)
def ite(c, a, b): return a if c else b


def rep(v, n):
    return v * max(0, n) if isinstance(v, (str, bytes)) else [v] * max(0, n)


def upd(s, i, v):
    s = list(s)
    s[i] = v
    return s


def disjoint(a, b): return not (set(a) & set(b))
def emptyset(): return frozenset()
def trig(x): return x


# ---- properties: which units decide them
R.props = {}
R.notes = {}


def prop(pid, units, note=''):
    R.props.setdefault(pid, []).extend(u for u in units if u not in R.props.get(pid, []))
    if note:
        R.notes.setdefault(pid, []).append(note)
