"""Loads the repository's current sources: .py via ast, .pyx via a mechanical, line-preserving translation to Python."""
import ast
import os
import re
from .api import R

REPO = os.environ.get('VERIF_REPO', '/repo')

CINT = {'int': 'c_int', 'unsigned int': 'c_uint', 'unsigned': 'c_uint', 'long': 'c_long', 'long long': 'c_llong', 'unsigned long': 'c_ulong',
        'unsigned long long': 'c_ullong', 'short': 'c_short', 'bint': 'c_bint', 'object': 'object', 'list': 'list', 'size_t': 'c_ulong',
        'Py_ssize_t': 'c_llong', 'str': 'str', 'bytes': 'bytes', 'dict': 'dict', 'tuple': 'tuple', 'set': 'set', 'void': 'c_void',
        'signed int': 'c_int', 'unsigned short': 'c_ushort', 'const short[:,:]': 'mv_short2', 'int32_t': 'c_int', 'int64_t': 'c_llong',
        'uint32_t': 'c_uint', 'uint64_t': 'c_ullong', 'double': 'c_double', 'char': 'c_char', 'bool': 'c_bint'}

CTYPE_RANGE = {'c_int': (-2**31, 2**31 - 1), 'c_uint': (0, 2**32 - 1), 'c_long': (-2**63, 2**63 - 1), 'c_llong': (-2**63, 2**63 - 1),
               'c_ulong': (0, 2**64 - 1), 'c_ullong': (0, 2**64 - 1), 'c_short': (-2**15, 2**15 - 1), 'c_ushort': (0, 2**16 - 1),
               'c_char': (-128, 127)}


class PyxError(Exception):
    pass


_CT = r'(?:const\s+)?(?:unsigned\s+long\s+long|unsigned\s+long|unsigned\s+int|unsigned\s+short|signed\s+int|long\s+long|unsigned|[A-Za-z_][A-Za-z0-9_.]*)(?:\s*\[[:,\s]*\])?'


def _ct(s):
    s = re.sub(r'\s+', ' ', s.strip())
    s = re.sub(r' \[', '[', s)
    return CINT.get(s, s.replace('const ', ''))


def _args(s):
    out = []
    for a in s.split(','):
        a = a.strip()
        if not a:
            continue
        m = re.match(r'^(%s)\s+([A-Za-z_]\w*)(\s*=.*)?$' % _CT, a)
        if m and not re.match(r'^\w+\s*(:|=)', a):
            out.append("%s: '%s'%s" % (m.group(2), _ct(m.group(1)), m.group(3) or ''))
        else:
            out.append(a)
    return ', '.join(out)


def pyx_to_py(text):
    """Rewrites Cython declarations to annotated Python, one line for one line.

    Dropped: cimport lines and 'cdef extern' blocks (INT_MAX and friends become known constants). C types of variables, attributes
    and arguments are kept as string annotations. Anything else Cython-specific makes the parser fail (PyxError)."""
    out = []
    extern_indent = None
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        line = lines[i]
        ind = re.match(r'\s*', line).group()
        body = line.strip()
        if extern_indent is not None:
            if not body or len(ind) > extern_indent:
                out.append(ind + '')
                i += 1
                continue
            extern_indent = None
        if re.match(r'cdef\s+extern\b', body):
            extern_indent = len(ind)
            out.append('')
            i += 1
            continue
        if re.match(r'(from\s+\S+\s+)?cimport\b', body):
            m = re.match(r'from\s+(\S+)\s+cimport\s+(.*)', body)
            out.append(ind + ('from %s import %s' % (m.group(1), m.group(2)) if m and m.group(1).startswith('.') else 'pass'))
            i += 1
            continue
        m = re.match(r'(?:cdef|ctypedef)\s+class\s+(.*)$', body)
        if m:
            out.append(ind + 'class ' + m.group(1))
            i += 1
            continue
        m = re.match(r'(cdef|cpdef)\s+(?:inline\s+)?(?:(%s)\s+)?([A-Za-z_]\w*)\s*\((.*)\)\s*(?:noexcept|except\s*[?+*]?\s*-?\w*)?\s*(?:nogil)?\s*:(\s*#.*)?$' % _CT, body)
        if m:
            rt = " -> '%s'" % _ct(m.group(2)) if m.group(2) else ''
            out.append(ind + 'def %s(%s)%s:' % (m.group(3), _args(m.group(4)), rt))
            i += 1
            continue
        m = re.match(r'(cdef|cpdef)\s+(?:inline\s+)?(?:(%s)\s+)?([A-Za-z_]\w*)\s*\((.*)\)\s*$' % _CT, body)
        if m:                       # declaration only (pxd)
            out.append(ind + 'pass')
            i += 1
            continue
        m = re.match(r'cdef\s+(?:public\s+|readonly\s+)?(%s)\s+([A-Za-z_]\w*.*)$' % _CT, body)
        if m:
            ct = _ct(m.group(1))
            rest = re.sub(r'\s*#.*$', '', m.group(2))
            parts = []
            if '=' in rest and ',' not in rest.split('=')[0]:
                n, e = rest.split('=', 1)
                parts.append("%s: '%s' = %s" % (n.strip(), ct, e.strip()))
            else:
                for n in rest.split(','):
                    n = n.strip()
                    if '=' in n:
                        n, e = n.split('=', 1)
                        parts.append("%s: '%s' = %s" % (n.strip(), ct, e.strip()))
                    else:
                        if not re.match(r'^[A-Za-z_]\w*$', n):
                            raise PyxError('cannot translate: ' + line)
                        parts.append("%s: '%s'" % (n, ct))
            out.append(ind + '; '.join(parts))
            i += 1
            continue
        if re.match(r'(cdef|cpdef|ctypedef)\b', body):
            raise PyxError('cannot translate: ' + line)
        # def with C-typed arguments
        m = re.match(r'def\s+(\w+)\s*\((.*)\)\s*(->.*)?:(\s*#.*)?$', body)
        if m and re.search(r'(^|,)\s*(int|unsigned int|object|list|bint|long|short)\s+\w', m.group(2)):
            out.append(ind + 'def %s(%s) %s:' % (m.group(1), _args(m.group(2)), m.group(3) or ''))
            i += 1
            continue
        line = re.sub(r'<\s*(%s)\s*\??>\s*(?=[A-Za-z_(])' % '|'.join(sorted(map(re.escape, CINT), key=len, reverse=True)),
                      lambda mm: '__ccast_%s__ @ ' % _ct(mm.group(1)), line)
        line = re.sub(r'<\s*([A-Z]\w*)\s*\??>\s*(?=[A-Za-z_(])', '', line)     # object casts
        out.append(line)
        i += 1
    return '\n'.join(out)


class Module:
    def __init__(self, name, path, tree, text):
        self.name, self.path, self.tree, self.text = name, path, tree, text
        self.classes, self.funcs, self.consts, self.imports = {}, {}, {}, {}
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.is_pyx = path.endswith('.pyx')
        self._scan(tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, ast.ClassDef):
                self.classes[n.name] = ClassInfo(self, n, None)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = FuncInfo(self, None, n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.consts[n.target.id] = n.value
            elif isinstance(n, ast.ImportFrom):
                base = self._resolve_from(n)
                for a in n.names:
                    self.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, (ast.Try, ast.If)):
                self._scan(n.body)
                for h in getattr(n, 'handlers', []):
                    self._scan(h.body)
                self._scan(getattr(n, 'orelse', []))

    def _resolve_from(self, n):
        if n.level == 0:
            return n.module
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return '.'.join(parts + ([n.module] if n.module else []))


class ClassInfo:
    def __init__(self, mod, node, outer):
        self.mod, self.node, self.outer = mod, node, outer
        self.name = node.name
        self.qual = (outer.qual + '.' if outer else mod.name + '.') + node.name
        self.methods, self.consts, self.inner, self.ctypes = {}, {}, {}, {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                kind, odd = 'method', None
                for d in n.decorator_list:
                    dn = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else \
                        (d.func.id if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) else None)
                    if dn in ('staticmethod', 'classmethod', 'property'):
                        kind = dn
                    elif dn == 'setter':
                        kind = 'setter'
                    elif dn not in ('abstractmethod', 'overload') and not (dn == 'lru_cache' and self.qual + '.' + n.name in R.cached):
                        odd = ast.unparse(d)
                if kind != 'setter':
                    self.methods[n.name] = self.methods[self.mangle(n.name)] = FuncInfo(mod, self, n, kind)
                    self.methods[n.name].odd = odd
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = self.consts[self.mangle(t.id)] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                if n.value is not None:
                    self.consts[n.target.id] = self.consts[self.mangle(n.target.id)] = n.value
                elif isinstance(n.annotation, ast.Constant):
                    self.ctypes[n.target.id] = n.annotation.value
            elif isinstance(n, ast.ClassDef):
                self.inner[n.name] = self.inner[self.mangle(n.name)] = ClassInfo(mod, n, self)
        self.base_names = [ast.unparse(b) for b in node.bases]

    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__'):
            return '_' + self.name.lstrip('_') + name
        return name

    def __repr__(self):
        return '<class %s>' % self.qual


class FuncInfo:
    def __init__(self, mod, cls, node, kind='function', outer=None):
        self.mod, self.cls, self.node, self.kind, self.outer = mod, cls, node, kind, outer
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.qual = (cls.qual if cls else mod.name if mod else '') + '.' + self.name
        self.closure = None
        self.odd = None if cls is not None or not getattr(node, 'decorator_list', None) else ast.unparse(node.decorator_list[0])
        self.is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _walk_own(node))

    def __repr__(self):
        return '<func %s>' % self.qual


def _walk_own(node):
    st = list(ast.iter_child_nodes(node))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(n))


class Program:
    """All modules of the package, loaded lazily."""

    def __init__(self, root=None, extra=None):
        self.root = root or REPO
        self.mods = {}
        self.extra = extra or R.ghosts    # module name -> path (ghost / library model modules in /verif)

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.extra:
            path = self.extra[name]
        else:
            base = os.path.join(self.root, *name.split('.'))
            path = None
            for c in (base + '.py', base + '.pyx', os.path.join(base, '__init__.py')):
                if os.path.exists(c):
                    path = c
                    break
            if path is None or not name.startswith('sudachipy'):
                self.mods[name] = None
                return None
        text = open(path, encoding='utf-8').read()
        src = text
        pxd = None
        if path.endswith('.pyx'):
            src = pyx_to_py(text)
            if os.path.exists(path[:-4] + '.pxd'):
                pxd = pyx_to_py(open(path[:-4] + '.pxd', encoding='utf-8').read())
                pxd = re.sub(r'(?m)^(class \w+.*):\s*$', r'\1:\n    pass', pxd)
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            raise PyxError('%s: %s' % (path, e))
        m = Module(name, path, tree, text)
        if pxd is not None:
            pm = Module(name, path, ast.parse(pxd), pxd)
            for cn, ci in pm.classes.items():
                if cn in m.classes:
                    m.classes[cn].ctypes.update(ci.ctypes)
        self.mods[name] = m
        return m

    def lookup(self, qual):
        """FuncInfo / ClassInfo for a dotted name such as sudachipy.lattice.Lattice.insert"""
        parts = qual.split('.')
        for i in range(len(parts) - 1, 0, -1):
            m = self.module('.'.join(parts[:i]))
            if m is None:
                continue
            cur = None
            for j, p in enumerate(parts[i:]):
                if cur is None:
                    cur = m.classes.get(p) or m.funcs.get(p)
                elif isinstance(cur, ClassInfo):
                    cur = cur.inner.get(p) or cur.methods.get(p)
                else:
                    cur = None
                if cur is None:
                    break
            if cur is not None:
                return cur
        return None

    def resolve_class(self, mod, expr):
        """ClassInfo for a (dotted) name used in a module, or None"""
        parts = expr.split('.')
        cur = self.resolve_name(mod, parts[0])
        for p in parts[1:]:
            if isinstance(cur, Module):
                cur = self.resolve_name(cur, p)
            elif isinstance(cur, ClassInfo):
                cur = cur.inner.get(p)
            else:
                return None
        return cur if isinstance(cur, ClassInfo) else None

    def resolve_name(self, mod, name, seen=()):
        """Module / ClassInfo / FuncInfo / ('const', expr, module) / ('ext', dotted) / None"""
        if (mod.name, name) in seen:
            return None
        if name in mod.classes:
            return mod.classes[name]
        if name in mod.funcs:
            return mod.funcs[name]
        if name in mod.consts:
            return ('const', mod.consts[name], mod)
        if name in mod.imports:
            im = mod.imports[name]
            if im[0] == 'mod':
                m = self.module(im[1])
                return m if m is not None else ('ext', im[1])
            base, nm = im[1], im[2]
            m = self.module(base)
            if m is not None:
                r = self.resolve_name(m, nm, seen + ((mod.name, name),))
                if r is not None:
                    return r
            sub = self.module(base + '.' + nm)
            if sub is not None:
                return sub
            return ('ext', base + '.' + nm)
        if mod.is_pkg:
            sub = self.module(mod.name + '.' + name)
            if sub is not None:
                return sub
        return None

    def mro(self, ci):
        out = [ci]
        for b in ci.base_names:
            bc = None
            if ci.outer is not None and b in ci.outer.inner:
                bc = ci.outer.inner[b]
            bc = bc or self.resolve_class(ci.mod, b)
            if bc is None:
                r = self.resolve_name(ci.mod, b.split('.')[0])
                if isinstance(r, tuple) and r[0] == 'ext':
                    q = '.'.join([r[1]] + b.split('.')[1:])
                    if q in R.models:
                        bc = self.lookup(R.models[q])
            if bc is not None:
                for x in self.mro(bc):
                    if x not in out:
                        out.append(x)
        return out

    def is_enum(self, ci):
        return any(b.split('.')[-1] in ('Enum', 'IntEnum') for b in ci.base_names)
