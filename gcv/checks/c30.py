"""C30: every shipped command and plugin starts: names, imports and calls resolve"""
import builtins
import importlib
import importlib.util
import inspect
import io
import re
import symtable
import sys
import types
import warnings

from .entry import *
from . import c28

EXPLANATION = ('The entry points named by setup.py are looked up in the source, and all code they (and the Cura plugins) can reach by name is resolved: every '
               'imported module and name, every global name, names used before they are bound, attributes of modules, classes, self and objects of known '
               'classes, and the arguments of every call of a function or class of the package or the standard library. Attributes of unknown objects must '
               'exist in some type of Python 3 or the package. The tools and plugins are also interpreted from start to end: no path ends in an error of this kind.')
warnings.simplefilter("ignore", SyntaxWarning)
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__loader__', '__path__', '__builtins__', '__debug__', '__annotations__'}
ERRORS = ('TypeError', 'NameError', 'AttributeError', 'ImportError', 'ModuleNotFoundError', 'UnboundLocalError', 'SyntaxError')
UNKNOWN = object()


# ---------------------------------------------------------------- modules

class World(object):
    def __init__(self, c):
        self.c = c
        self.mods = c28.modules(c)
        self.source = {}
        self.plugins = []
        for p in plugins(c):
            rel = os.path.relpath(p, c.root) if os.path.isabs(p) else p
            m = c28.Module(rel[:-3].replace(os.sep, '.'), rel, parse_file(os.path.join(c.root, rel)))
            c28.imports(m, m.tree)
            self.mods[m.name] = m
            self.plugins.append(m.name)
        for m in self.mods.values():
            with open(os.path.join(c.root, m.path), 'rb') as f:
                self.source[m.name] = f.read().decode('utf-8', 'replace')
            m.table = symtable.symtable(self.source[m.name], m.path, 'exec')
            m.parent = {}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.AugAssign):
                    AUG.add(id(n.target))
                for x in ast.iter_child_nodes(n):
                    m.parent[x] = n
            m.classes = {n.name: n for n in ast.walk(m.tree) if isinstance(n, ast.ClassDef)}
        for m in self.mods.values():
            m.exports = self.names(m)
        self.stores = set()
        self.attrs = set()
        for m in self.mods.values():
            self.attrs |= m.exports
            for n in ast.walk(m.tree):
                if stored(m, n):
                    self.stores.add(n.attr)
                elif isinstance(n, ast.ClassDef):
                    self.attrs |= own_attrs(n)
                elif isinstance(n, ast.Call):
                    f = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
                    if f in ('namedtuple', 'setattr', 'add_argument', 'make_dataclass', 'SimpleNamespace', 'Namespace', 'set_defaults', 'Enum', 'type'):
                        vals = list(n.args) + [k.value for k in n.keywords if f != 'add_argument' or k.arg == 'dest']
                        for x in [y for v in vals for y in ast.walk(v)]:
                            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                                self.stores |= set(re.findall(r'\w+', x.value)) | {x.value.lstrip('-').replace('-', '_')}
                        if f != 'add_argument':
                            self.stores |= {k.arg for k in n.keywords if k.arg}
            # names given to setattr or used as keys of __dict__
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1:
                    if not isinstance(n.args[1], ast.Constant):
                        self.stores |= texts(self.mods)
        self.attrs |= self.stores
        self.std = std_attrs(self)
        self.external = {}

    def names(self, m):
        out = {s.get_name() for s in m.table.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        todo = list(m.table.get_children())
        while todo:
            t = todo.pop()
            todo += t.get_children()
            out |= {s.get_name() for s in t.get_symbols() if s.is_declared_global() and s.is_assigned()}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                b = self.base(m, n)
                if b in self.mods:
                    out |= {x for x in self.names(self.mods[b]) if not x.startswith('_')}
                else:
                    v = self.ext(b)
                    out |= set(getattr(v, '__all__', None) or [x for x in dir(v) if not x.startswith('_')]) if v is not None else set()
        return out

    def base(self, m, n):
        base = n.module or ''
        if n.level:
            up = m.name.split('.')
            if not m.path.endswith('__init__.py'):
                up = up[:-1]
            up = up[:len(up) - n.level + 1]
            base = '.'.join(up + ([n.module] if n.module else []))
        return base

    def ext(self, name):
        """module of the standard library (by introspection), or None"""
        if name in self.__dict__.setdefault('_ext', {}):
            return self._ext[name]
        v = None
        top = name.split('.')[0]
        if top in sys.stdlib_module_names and top not in ('antigravity', 'this', 'idlelib', 'turtledemo'):
            try:
                v = importlib.import_module(name)
            except Exception:
                v = None
        self._ext[name] = v
        return v

    def resolve(self, dotted_name, depth=0):
        """('mod', m) ('def', m, node) ('ext', object) ('value', m, name) or None if it does not exist, or UNKNOWN"""
        if depth > 8:
            return UNKNOWN
        p = dotted_name.split('.')
        for k in range(len(p), 0, -1):
            q = '.'.join(p[:k])
            if q in self.mods:
                return self.within(self.mods[q], p[k:], depth)
        for k in range(len(p), 0, -1):
            v = self.ext('.'.join(p[:k]))
            if v is not None:
                for a in p[k:]:
                    if not hasattr(v, a):
                        return None
                    v = getattr(v, a)
                return ('ext', v)
        return None if p[0] not in sys.stdlib_module_names or self.ext(p[0]) is not None else UNKNOWN

    def within(self, m, rest, depth):
        if not rest:
            return ('mod', m)
        a = rest[0]
        if a in m.defs and self.once(m, a):
            n = m.defs[a]
            if len(rest) == 1:
                return ('def', m, n)
            if isinstance(n, ast.ClassDef) and len(rest) == 2:
                return self.member(m, n, rest[1])
            return UNKNOWN
        if a in m.env and self.once(m, a):
            return self.resolve('.'.join([m.env[a]] + rest[1:]), depth + 1)
        if a in m.exports:
            return ('value', m, a) if len(rest) == 1 else UNKNOWN
        return None

    def once(self, m, name):
        """bound once at the top of the module"""
        k = 0
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load):
                t = n
                while t in m.parent and not isinstance(t, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    t = m.parent[t]
                k += 2 * isinstance(t, ast.Module)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name and m.defs.get(name) is not n:
                k += any(n is x for x in m.tree.body)
        return k == 0

    # classes ----------------------------------------------------
    def bases(self, m, n):
        """[(module, class node)] of package bases, or None when one is not known; external bases as ('ext', object)"""
        out = []
        for b in n.bases:
            d = self.name_of(m, b)
            r = self.resolve(d) if d else UNKNOWN
            if d == 'object':
                continue
            if r and r is not UNKNOWN and r[0] == 'def' and isinstance(r[2], ast.ClassDef):
                out.append((r[1], r[2]))
            elif r and r is not UNKNOWN and r[0] == 'ext' or d and hasattr(builtins, d):
                out.append(('ext', r[1] if r else getattr(builtins, d)))
            else:
                return None
        return out

    def mro(self, m, n):
        """classes in order of lookup (depth first), None when a base is unknown"""
        out = [(m, n)]
        b = self.bases(m, n)
        if b is None:
            return None
        for x in b:
            if x[0] == 'ext':
                out.append(x)
            else:
                s = self.mro(*x)
                if s is None:
                    return None
                out += s
        return out

    def subclasses(self, m, n):
        out = []
        for m2 in self.mods.values():
            for k in m2.classes.values():
                if k is not n:
                    r = self.mro(m2, k)
                    if r is not None and any(x[1] is n for x in r):
                        out.append((m2, k))
        return out

    def family(self, m, n):
        """attribute names of the class, its bases and its subclasses; None if unknown"""
        out = set(dir(object)) | {'__dict__', '__class__', '__slots__'}
        group = self.mro(m, n)
        if group is None or n.keywords or n.decorator_list:
            return None
        for s in self.subclasses(m, n):
            group = group + (self.mro(*s) or [])
        for a, b in group:
            if a == 'ext':
                out |= set(dir(b))
                continue
            if b.keywords or b.decorator_list or any(isinstance(x, ast.FunctionDef) and x.name in ('__getattr__', '__getattribute__', '__setattr__') for x in b.body):
                return None
            out |= own_attrs(b) | self_stores(b)
            if any(isinstance(x, ast.Attribute) and x.attr == '__dict__' for x in ast.walk(b)):
                return None
        return out

    def member(self, m, n, name):
        r = self.mro(m, n)
        if r is None:
            return UNKNOWN
        for a, b in r:
            if a == 'ext':
                if hasattr(b, name):
                    return ('ext', getattr(b, name))
                continue
            found = [x for x in ast.walk(b) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name and m_owner(a, x) is b]
            if len(found) == 1 and sum(y == name for y in assigned_in_class(b)) == 0:
                return ('def', a, found[0])
            if name in own_attrs(b):
                return UNKNOWN
        if hasattr(object, name):
            return UNKNOWN
        return None

    def name_of(self, m, x):
        """dotted name of an expression: through the module's imports or its own definitions"""
        parts = []
        while isinstance(x, ast.Attribute):
            parts.append(x.attr)
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        if x.id in m.env:
            return '.'.join([m.env[x.id]] + parts[::-1])
        if x.id in m.defs:
            return '.'.join([m.name, x.id] + parts[::-1])
        return '.'.join([x.id] + parts[::-1])


AUG = set()     # targets of augmented assignments: they must exist already


def stored(m, n):
    return isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and id(n) not in AUG


def texts(mods):
    """names that setattr may be given: words in the strings of the package, and the letters of short ones"""
    out = set()
    for m in mods.values():
        docs = {id(x.value) for x in ast.walk(m.tree) if isinstance(x, ast.Expr)}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and id(x) not in docs and len(x.value) < 20:
                out |= {y for v in (x.value, x.value.lower()) for y in [v] + (list(v) if len(v) < 12 else [])}
    return {x for x in out if x.isidentifier()}


def memo(f):
    def g(self, *a):
        t = self.__dict__.setdefault('_memo_' + f.__name__, {})
        if a not in t:
            t[a] = f(self, *a)
        return t[a]
    return g


def m_owner(m, x):
    t = m.parent.get(x)
    while t is not None and not isinstance(t, (ast.ClassDef, ast.FunctionDef, ast.Module)):
        t = m.parent.get(t)
    return t


def own_attrs(n):
    out = set()
    for x in class_level(n):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
            out.add(x.id)
            if x.id == '__slots__':
                pass
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {a.asname or a.name.split('.')[0] for a in x.names}
    for x in n.body:
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__slots__' for t in x.targets):
            out |= {y.value for y in ast.walk(x.value) if isinstance(y, ast.Constant) and isinstance(y.value, str)}
    return out


def assigned_in_class(n):
    return [x.id for x in class_level(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)]


def class_level(n):
    todo, out = list(n.body), []
    while todo:
        x = todo.pop()
        out.append(x)
        if not isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            todo += list(ast.iter_child_nodes(x))
    return out


def self_stores(n):
    out = set()
    for f in class_level(n):
        if isinstance(f, ast.FunctionDef) and f.args.args:
            s = f.args.args[0].arg
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == s and id(x) not in AUG:
                    out.add(x.attr)
    return out


def std_attrs(w):
    """attribute names of the types of Python 3 and of the imported standard modules"""
    out = set()
    kinds = [v for v in vars(builtins).values() if isinstance(v, type)]
    kinds += [getattr(types, x) for x in dir(types) if isinstance(getattr(types, x), type)]
    kinds += [io.TextIOWrapper, io.BufferedReader, io.BufferedWriter, io.FileIO, io.StringIO, io.BytesIO, type(re.compile('')), type(re.match('', '')),
              type({}.keys()), type({}.values()), type({}.items())]
    for k in kinds:
        out |= set(dir(k))
    names = {d.split('.')[0] for m in w.mods.values() for d in m.env.values()} | {d for m in w.mods.values() for d in m.env.values()}
    for d in names:
        v = w.ext(d)
        if v is None:
            continue
        out |= set(dir(v))
        for a in dir(v):
            k = getattr(v, a, None)
            if isinstance(k, type):
                out |= set(dir(k)) | set(getattr(k, '__annotations__', ()))
                try:
                    out |= {x.attr for x in ast.walk(ast.parse(inspect.cleandoc('\n' + inspect.getsource(k)))) if isinstance(x, ast.Attribute) and
                            isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self'}
                except (OSError, TypeError, SyntaxError):
                    pass
            elif k is not None and not isinstance(k, types.ModuleType) and not callable(k):
                out |= set(dir(k))
    return out


for _f in ('once', 'bases', 'mro', 'subclasses', 'family', 'member'):
    setattr(World, _f, memo(getattr(World, _f)))


# ---------------------------------------------------------------- guards

CATCH = {'names': ('NameError', 'Exception', 'BaseException', None), 'imports': ('ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException', None),
         'attributes': ('AttributeError', 'Exception', 'BaseException', None), 'calls': ('TypeError', 'Exception', 'BaseException', None)}


def handler_names(h):
    t = h.type
    if t is None:
        return [None]
    ts = t.elts if isinstance(t, ast.Tuple) else [t]
    return [x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None for x in ts]


def guarded(m, n, kind):
    """the failure is caught, or the code is only for another version of Python"""
    x = n
    while x in m.parent:
        p = m.parent[x]
        if isinstance(p, ast.Try) and any(x is y for y in p.body + p.orelse):
            if any(h in CATCH[kind] for e in p.handlers for h in handler_names(e)):
                return True
        if isinstance(p, ast.ExceptHandler):
            # handler of a failure that is not expected with Python 3: import or name of Python 3 in the body
            t = m.parent.get(p)
            if isinstance(t, ast.Try) and any(h in ('ImportError', 'ModuleNotFoundError', 'NameError', 'AttributeError') for h in handler_names(p)):
                if all(isinstance(s, (ast.Import, ast.ImportFrom, ast.Expr, ast.Assign, ast.Pass)) for s in t.body) and works(m, t):
                    return True
        if isinstance(p, (ast.If, ast.IfExp)) and x is not p.test and version_test(p.test):
            return True
        if isinstance(p, ast.If) and x is not p.test and isinstance(p.test, ast.Name) and p.test.id == 'TYPE_CHECKING':
            return True
        if isinstance(p, (ast.If, ast.IfExp, ast.BoolOp)) and not any(x is y for y in [getattr(p, 'test', None)]):
            t = p.values[0] if isinstance(p, ast.BoolOp) else p.test
            if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == 'hasattr' for y in ast.walk(t)):
                return True
        if isinstance(p, ast.With) and any('suppress' in ast.dump(i.context_expr) for i in p.items):
            return True
        x = p
    return False


def works(m, t):
    """the body of a guarded import/name test works on Python 3"""
    for s in t.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in BUILTINS and x.id not in m.exports:
                return False
            if isinstance(x, ast.ImportFrom):
                b = W.base(m, x)
                for a in x.names:
                    if not imported(W, b, a.name):
                        return False
            if isinstance(x, ast.Import):
                for a in x.names:
                    if W.resolve(a.name) is None:
                        return False
    return True


def version_test(t):
    return any(isinstance(x, ast.Attribute) and x.attr in ('version_info', 'hexversion', 'version', 'PY2', 'PY3') or isinstance(x, ast.Name) and
               x.id in ('PY2', 'PY3', 'IS_PY2', 'IS_PY3', 'version_info') for x in ast.walk(t))


def imported(w, base, name):
    """does 'from base import name' work"""
    if base == '__future__':
        import __future__
        return hasattr(__future__, name)
    if name == '*':
        return w.resolve(base) is not None
    if base in w.mods:
        m = w.mods[base]
        return name in m.exports or base + '.' + name in w.mods or name in BUILTINS and name.startswith('__')
    r = w.resolve(base + '.' + name)
    return r is not None


# ---------------------------------------------------------------- parts

W = None


def reached(w):
    """nodes of the code the commands and plugins can run, by module"""
    roots = list(w.plugins)
    old = c28.TOOLS
    pairs = c28.reach(w.mods)
    seen = {}
    for m, n in pairs:
        seen.setdefault(m.name, []).append(n)
    # plugins: their own code and what it names
    c28.TOOLS = roots
    try:
        for m, n in c28.reach(w.mods):
            if not any(n is x for x in seen.setdefault(m.name, [])):
                seen[m.name].append(n)
    finally:
        c28.TOOLS = old
    out = {}
    for name, ns in seen.items():
        s = out.setdefault(name, set())
        for n in ns:
            s |= set(c28.executed(n))
            if isinstance(n, ast.FunctionDef):
                s |= {n}
                for d in n.decorator_list + n.args.defaults + [k for k in n.args.kw_defaults if k]:
                    s |= set(ast.walk(d))
            else:       # class bodies and main guards are run as well
                s |= {x for g in ast.walk(n) if c28.is_main_guard(g) for x in ast.walk(g)}
    return out, seen


def site(m, n):
    f = n
    while f in m.parent and not isinstance(f, (ast.FunctionDef, ast.ClassDef)):
        f = m.parent[f]
    return '%s:%s:%d' % (m.path, getattr(f, 'name', 'module'), getattr(n, 'lineno', 0))


def world(c):
    """the parsed modules; None (and a verdict) when one of them is not Python 3"""
    global W
    bad = False
    paths = []
    for d, ds, fs in os.walk(os.path.join(c.root, 'gcodeutils')):
        ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__'))
        paths += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.py')]
    plug = os.path.join(c.root, 'cura_plugins')
    if os.path.isdir(plug):
        paths += [os.path.join(plug, f) for f in sorted(os.listdir(plug)) if f.endswith('.py')]
    for p in paths:
        rel = os.path.relpath(p, c.root)
        try:
            with open(p, 'rb') as f:
                compile(f.read(), rel, 'exec', dont_inherit=True)
            c.ok('every module is Python 3', rel, '')
        except (SyntaxError, ValueError) as e:
            c.bad('every module is Python 3', '%s:%s' % (rel, getattr(e, 'lineno', 0)), str(e))
            bad = True
    if bad:
        return None
    if W is None or W.c is not c:
        W = World(c)
        W.nodes, W.bodies = reached(W)
    return W


def entry_points(c):
    w = world(c)
    if w is None:
        return
    rule = 'declared commands and plugins exist'
    try:
        tree = ast.parse(open(os.path.join(c.root, 'setup.py')).read())
    except (OSError, SyntaxError) as e:
        c.bad(rule, 'setup.py', str(e))
        return
    calls = [x for x in ast.walk(tree) if isinstance(x, ast.Call) and (getattr(x.func, 'id', '') or getattr(x.func, 'attr', '')) == 'setup']
    found = 0
    for x in calls:
        for k in x.keywords:
            if k.arg == 'entry_points':
                try:
                    v = ast.literal_eval(k.value)
                except ValueError:
                    c.undecided(rule, 'setup.py:%d' % k.value.lineno, 'computed')
                    continue
                for s in v.get('console_scripts', ()) if isinstance(v, dict) else ():
                    mod, _, f = s.partition('=')[2].strip().partition(':')
                    r = w.resolve(mod + '.' + f.strip()) if mod in w.mods else None
                    found += 1
                    if r is None:
                        c.bad(rule, 'setup.py:%d' % k.value.lineno, s + ': no such function')
                    elif r is UNKNOWN or r[0] != 'def':
                        c.ok(rule, 'setup.py:%d' % k.value.lineno, s)
                    else:
                        d = r[2]
                        if isinstance(d, ast.FunctionDef) and required(d):
                            c.bad(rule, '%s:%d' % (r[1].path, d.lineno), '%s needs arguments: %s' % (d.name, ', '.join(required(d))))
                        else:
                            c.ok(rule, 'setup.py:%d' % k.value.lineno, s)
            if k.arg == 'data_files':
                try:
                    v = ast.literal_eval(k.value)
                except ValueError:
                    continue
                for _, fs in v:
                    for f in fs:
                        (c.ok if os.path.exists(os.path.join(c.root, f)) else c.bad)(rule, 'setup.py:%d' % k.value.lineno, f)
    if not found:
        c.undecided(rule, 'setup.py', 'no entry points')
    for name, m in sorted(w.mods.items()):
        if name in w.plugins or not w.nodes.get(name):
            continue
        d = os.path.dirname(m.path)
        while d:
            init = os.path.join(d, '__init__.py')
            (c.ok if os.path.exists(os.path.join(c.root, init)) else c.bad)('modules are in installed packages', m.path, init)
            d = os.path.dirname(d)


def required(f):
    a = f.args
    pos = a.posonlyargs + a.args
    out = [p.arg for p in pos[:len(pos) - len(a.defaults)]]
    return out + [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]


def imports(c):
    w = world(c)
    if w is None:
        return
    rule = 'imports resolve'
    for name, m in sorted(w.mods.items()):
        run = w.nodes.get(name, ())
        for n in ast.walk(m.tree):
            if n not in run or not isinstance(n, (ast.Import, ast.ImportFrom)):
                continue
            if isinstance(n, ast.ImportFrom):
                b = w.base(m, n)
                for a in n.names:
                    if b.split('.')[0] not in ('gcodeutils', '__future__') and w.ext(b.split('.')[0]) is None and b not in w.mods and b in sys.stdlib_module_names:
                        c.undecided(rule, site(m, n), b)
                    elif imported(w, b, a.name):
                        c.ok(rule, site(m, n), '%s.%s' % (b, a.name))
                    elif guarded(m, n, 'imports'):
                        c.ok(rule, site(m, n), '%s.%s (guarded)' % (b, a.name))
                    else:
                        c.bad(rule, site(m, n), 'no %s in %s' % (a.name, b))
            else:
                for a in n.names:
                    if w.resolve(a.name) is not None or guarded(m, n, 'imports'):
                        c.ok(rule, site(m, n), a.name)
                    else:
                        c.bad(rule, site(m, n), 'no module %s' % a.name)
    # order of loading
    for t in sorted(set(TOOLS) | set(w.plugins)):
        if t in w.mods:
            load(c, w, w.mods[t], {}, set())


def load(c, w, m, bound, done):
    """modules are loaded in order; a name taken from a module still being loaded must be bound already"""
    if m.name in bound:
        return
    p = m.name.split('.')
    for k in range(1, len(p)):
        q = '.'.join(p[:k])
        if q in w.mods and q not in bound:
            load(c, w, w.mods[q], bound, done)
    bound[m.name] = have = set()
    todo = list(m.tree.body)
    while todo:
        s = todo.pop(0)
        if isinstance(s, ast.Import):
            for a in s.names:
                q = a.name.split('.')
                for k in range(1, len(q) + 1):
                    if '.'.join(q[:k]) in w.mods:
                        load(c, w, w.mods['.'.join(q[:k])], bound, done)
                have.add(a.asname or q[0])
        elif isinstance(s, ast.ImportFrom):
            b = w.base(m, s)
            if b in w.mods:
                load(c, w, w.mods[b], bound, done)
            for a in s.names:
                if b + '.' + a.name in w.mods:
                    load(c, w, w.mods[b + '.' + a.name], bound, done)
                elif b in w.mods and b not in done and a.name != '*' and a.name not in bound[b] and not guarded(m, s, 'imports') and a.name in w.mods[b].exports:
                    c.bad('modules load in order', site(m, s), '%s is not bound yet while %s is being loaded' % (a.name, b))
                have.add(a.asname or a.name)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            have.add(s.name)
        else:
            rest = []
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.stmt):
                    rest.append(x)
                elif isinstance(x, ast.ExceptHandler):
                    rest += x.body
            have |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)} if not rest else set()
            todo = rest + todo
    done.add(m.name)
    c.ok('modules load in order', m.path, '')


def params(w, m):
    """names a Cura plugin is given"""
    if m.name not in w.plugins:
        return set()
    return set(re.findall(r'^#Param:\s*(\w+)\s*\(', w.source[m.name], re.M)) | {'filename'}


def names(c):
    w = world(c)
    if w is None:
        return
    rule = 'names are defined'
    for name, m in sorted(w.mods.items()):
        run = w.nodes.get(name, set())
        if not run:
            continue
        known = m.exports | BUILTINS | params(w, m)
        tables = {}
        todo = [m.table]
        count = 0
        while todo:
            t = todo.pop()
            todo += t.get_children()
            for s in t.get_symbols():
                if s.is_referenced() and (s.is_global() or t is m.table) and s.get_name() not in known:
                    for n in ast.walk(m.tree):
                        if isinstance(n, ast.Name) and n.id == s.get_name() and isinstance(n.ctx, ast.Load) and n in run and not guarded(m, n, 'names'):
                            if scope_of(m, n, t):
                                c.bad(rule, site(m, n), '%s is not defined' % n.id)
                elif s.is_referenced():
                    count += 1
        c.ok(rule, m.path, '%d names' % count)
        # order of binding
        order(c, m, m.tree, run, known - m.exports)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef) and any(x in run for x in n.body):
                order(c, m, n, run, set())


def scope_of(m, n, t):
    """is the node in the scope of the symbol table"""
    if t.get_type() == 'module':
        x = n
        while x in m.parent:
            x = m.parent[x]
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                return False
        return True
    x = n
    while x in m.parent:
        x = m.parent[x]
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if getattr(x, 'lineno', None) == t.get_lineno() or isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == t.get_name():
                return True
    return False


def order(c, m, f, run, known):
    """names of the scope that can not have been bound where they are used"""
    rule = 'names are bound before they are used'
    if isinstance(f, ast.Module):
        local = m.exports
        start = set()
    else:
        a = f.args
        start = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        glob = {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        local = bound_names(f.body) - glob
    bad = []

    def use(n, have):
        """expressions, in order of evaluation (assignments apart)"""
        if n is None:
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in local and n.id not in have and n.id not in known and n.id not in start:
                if not (isinstance(f, ast.Module) and n.id in BUILTINS):
                    bad.append(n)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                use(d, have)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            use(n.generators[0].iter, have)
            inner = have | {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)} | \
                {x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)}
            if not isinstance(n, ast.GeneratorExp):
                for g in n.generators:
                    for y in g.ifs + ([g.iter] if g is not n.generators[0] else []):
                        use(y, inner)
                for y in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                    use(y, inner)
            have |= {x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)}
            return
        if isinstance(n, ast.NamedExpr):
            use(n.value, have)
            have.add(n.target.id)
            return
        for x in ast.iter_child_nodes(n):
            use(x, have)

    def store(t, have):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                if isinstance(x.ctx, ast.Del):
                    have.discard(x.id)
                else:
                    have.add(x.id)
            elif isinstance(x, (ast.Attribute, ast.Subscript)):
                for y in ast.iter_child_nodes(x):
                    use(y, have)

    def block(ss, have):
        """names that may be bound after the statements; None when the end is not reached"""
        for s in ss:
            if have is None:
                return None
            have = stmt(s, have)
        return have

    def join(*xs):
        xs = [x for x in xs if x is not None]
        return set().union(*xs) if xs else None

    def stmt(s, have):
        have = set(have)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [k for k in s.args.kw_defaults if k]:
                use(d, have)
            have.add(s.name)
        elif isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                use(d, have)
            inner = block(s.body, have)
            have.add(s.name)
        elif isinstance(s, ast.Assign):
            use(s.value, have)
            for t in s.targets:
                store(t, have)
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                n = s.target
                if n.id in local and n.id not in have and n.id not in start and n.id not in known:
                    bad.append(n)
            use(s.value, have)
            store(s.target, have)
        elif isinstance(s, ast.AnnAssign):
            use(s.value, have)
            if s.value is not None:
                store(s.target, have)
        elif isinstance(s, ast.If):
            use(s.test, have)
            have = join(block(s.body, set(have)), block(s.orelse, set(have)))
        elif isinstance(s, (ast.For, ast.While)):
            use(s.iter if isinstance(s, ast.For) else s.test, have)
            inner = have | bound_names(s.body)
            if isinstance(s, ast.For):
                first = set(have)
                store(s.target, first)
                inner |= first
            block(s.body, inner)
            have = have | bound_names([s])
            have = join(have, block(s.orelse, set(have)))
        elif isinstance(s, ast.Try):
            out = block(s.body, set(have))
            inside = have | bound_names(s.body)
            ends = [block(s.orelse, out) if out is not None else None]
            for h in s.handlers:
                x = set(inside)
                use(h.type, x)
                if h.name:
                    x.add(h.name)
                x = block(h.body, x)
                if x is not None and h.name:
                    x.discard(h.name)
                ends.append(x)
            have = join(*ends)
            if s.finalbody:
                fin = block(s.finalbody, (have or set()) | inside | bound_names([s]))
                have = (have | fin) if have is not None and fin is not None else None
        elif isinstance(s, ast.With):
            for i in s.items:
                use(i.context_expr, have)
                if i.optional_vars is not None:
                    store(i.optional_vars, have)
            x = block(s.body, set(have))
            have = x if x is not None else have | bound_names(s.body)
        elif isinstance(s, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                use(x, have)
            return None
        elif isinstance(s, (ast.Break, ast.Continue)):
            return None
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            have |= {a.asname or a.name.split('.')[0] for a in s.names}
            if any(a.name == '*' for a in s.names):
                have |= local
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                store(t, have)
        elif isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            pass
        elif isinstance(s, ast.Expr) or isinstance(s, ast.Assert):
            for x in ast.iter_child_nodes(s):
                use(x, have)
        else:
            have |= bound_names([s])
        return have
    block(f.body, set(start))
    for n in bad:
        if n in run and not guarded(m, n, 'names'):
            c.bad(rule, site(m, n), '%s is used before it is bound' % n.id)
    if not bad:
        c.ok(rule, site(m, f), '')


def bound_names(ss):
    out = set()
    todo = list(ss)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(x.name)
            continue
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            out |= {y.target.id for y in ast.walk(x) if isinstance(y, ast.NamedExpr)}
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {a.asname or a.name.split('.')[0] for a in x.names}
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            out.add(x.name)
        todo += list(ast.iter_child_nodes(x))
    return out


# ---------------------------------------------------------------- attributes

def method_of(m, n):
    """(class, function) whose first parameter is the object, for a node in a method"""
    x, f = n, None
    while x in m.parent:
        p = m.parent[x]
        if isinstance(x, ast.FunctionDef) and isinstance(p, (ast.ClassDef, ast.If, ast.Try)):
            o = m_owner(m, x)
            if isinstance(o, ast.ClassDef):
                return o, x
        x = p
    return None, None


def local_scope(m, n):
    x = n
    while x in m.parent:
        x = m.parent[x]
        if isinstance(x, (ast.FunctionDef, ast.Module)):
            return x
    return x


def single(w, m, n, depth=0):
    """class of the objects a local name can be, as (module, class node): assigned once in its scope, from a call of the class"""
    f = local_scope(m, n)
    if isinstance(f, ast.FunctionDef):
        a = f.args
        if n.id in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}:
            return None
    binds = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == n.id and not isinstance(x.ctx, ast.Load) and local_scope(m, x) is f]
    if len(binds) != 1:
        return None
    p = m.parent[binds[0]]
    if not (isinstance(p, ast.Assign) and len(p.targets) == 1 and p.targets[0] is binds[0]):
        return None
    return p.value


def instance(w, m, v):
    """class of the value of an expression, if it is a call of a class of the package"""
    if isinstance(v, ast.Call):
        d = w.name_of(m, v.func)
        if d and not shadowed(m, v.func):
            r = w.resolve(d)
            if r and r is not UNKNOWN and r[0] == 'def' and isinstance(r[2], ast.ClassDef):
                if not any(isinstance(x, ast.FunctionDef) and x.name == '__new__' for x in r[2].body):
                    return r[1], r[2]
    return None


def shadowed(m, x):
    """is the first name of the expression a local variable"""
    while isinstance(x, ast.Attribute):
        x = x.value
    if not isinstance(x, ast.Name):
        return True
    f = x
    while f in m.parent:
        f = m.parent[f]
        if isinstance(f, (ast.FunctionDef, ast.Lambda)):
            a = f.args
            if x.id in {y.arg for y in a.posonlyargs + a.args + a.kwonlyargs} | {y.arg for y in (a.vararg, a.kwarg) if y}:
                return True
            if isinstance(f, ast.FunctionDef) and x.id in bound_names(f.body) and not any(
                    isinstance(y, (ast.Global,)) and x.id in y.names for y in ast.walk(f)):
                # a local import is the module's name
                return any(isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Store) for y in ast.walk(f)) or \
                    any(isinstance(y, (ast.FunctionDef, ast.ClassDef)) and y.name == x.id for y in ast.walk(f) if y is not f)
        elif isinstance(f, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if any(isinstance(y, ast.Name) and y.id == x.id for g in f.generators for y in ast.walk(g.target)):
                return True
    return False


def attributes(c):
    w = world(c)
    if w is None:
        return
    rule = 'attributes exist'
    wide = w.attrs | w.std
    for name, m in sorted(w.mods.items()):
        run = w.nodes.get(name, set())
        count = 0
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Attribute) or n not in run or not (isinstance(n.ctx, ast.Load) or id(n) in AUG):
                continue
            count += 1
            bad = None
            v = n.value
            d = w.name_of(m, n)
            first = n
            while isinstance(first, ast.Attribute):
                first = first.value
            if d is not None and isinstance(first, ast.Name) and not shadowed(m, first) and (first.id in m.env or first.id in m.defs):
                r = w.resolve(d)
                if w.resolve(w.name_of(m, v)) is not None and r is None and not stored_on(w, d):
                    bad = '%s does not exist' % d
                elif r is not None and r is not UNKNOWN:
                    continue
            elif isinstance(v, ast.Name):
                k, f = method_of(m, n)
                if k is not None and f.args.args and v.id == f.args.args[0].arg and not static(f) and not rebound(f, v.id):
                    fam = w.family(m, k)
                    if fam is not None and n.attr not in fam and n.attr not in foreign_stores(w):
                        bad = '%s has no attribute %s' % (k.name, n.attr)
                else:
                    e = single(w, m, v)
                    i = instance(w, m, e) if e is not None else None
                    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'parse_args' and len(e.args) < 2:
                        opts = options(w, m)
                        if opts is not None and n.attr not in opts and n.attr not in foreign_stores(w):
                            bad = 'no option sets %s' % n.attr
                    elif i is not None:
                        fam = w.family(*i)
                        if fam is not None and n.attr not in fam and n.attr not in foreign_stores(w):
                            bad = '%s has no attribute %s' % (i[1].name, n.attr)
            elif isinstance(v, ast.Call):
                i = instance(w, m, v)
                if i is not None:
                    fam = w.family(*i)
                    if fam is not None and n.attr not in fam and n.attr not in foreign_stores(w):
                        bad = '%s has no attribute %s' % (i[1].name, n.attr)
            if bad is None and n.attr not in wide:
                bad = 'no type of Python 3 or of the package has an attribute %s' % n.attr
            if bad and not guarded(m, n, 'attributes'):
                c.bad(rule, site(m, n), bad)
        if count:
            c.ok(rule, m.path, '%d attributes' % count)


def options(w, m):
    """names of the values of the options declared in the module, None if not known"""
    import argparse
    out = set(dir(argparse.Namespace))
    if any(p.startswith('argparse') for p in m.env.values()) is False:
        return None
    for x in w.mods.values():
        for n in ast.walk(x.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr == 'add_argument':
                    ns = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                    if len(ns) != len(n.args) or any(k.arg is None or k.arg == 'dest' and not isinstance(k.value, ast.Constant) for k in n.keywords):
                        return None
                    d = next((k.value.value for k in n.keywords if k.arg == 'dest'), None)
                    if d is None and ns:
                        longs = [a for a in ns if a.startswith('--')]
                        d = (longs[0] if longs else ns[0]).lstrip('-').replace('-', '_')
                    if d:
                        out.add(d)
                elif n.func.attr == 'set_defaults':
                    if any(k.arg is None for k in n.keywords):
                        return None
                    out |= {k.arg for k in n.keywords}
                elif n.func.attr == 'add_subparsers':
                    return None
    return out


def static(f):
    return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list)


def rebound(f, name):
    return any(isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load) for x in ast.walk(f)) or \
        any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f and any(a.arg == name for a in x.args.args) for x in ast.walk(f))


def stored_on(w, d):
    """is the attribute of a class or module stored somewhere"""
    return d.split('.')[-1] in foreign_stores(w)


def foreign_stores(w):
    """attributes stored on something else than self, or in ways that hide their names"""
    if not hasattr(w, '_foreign'):
        out = set()
        for m in w.mods.values():
            for n in ast.walk(m.tree):
                if stored(m, n):
                    k, f = method_of(m, n)
                    if k is None or not (isinstance(n.value, ast.Name) and f.args.args and n.value.id == f.args.args[0].arg):
                        out.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        out.add(n.args[1].value)
                    else:
                        out |= texts(w.mods)
        w._foreign = out
    return w._foreign


# ---------------------------------------------------------------- calls

def arity(f, call, bound):
    """why the call does not fit the function, or None"""
    a = f.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    pos = a.posonlyargs + a.args
    if bound:
        if not pos and not a.vararg:
            return '%s takes no arguments, not even the object' % f.name
        pos = pos[1:]
    given = [x for x in call.args if not isinstance(x, ast.Starred)]
    if len(given) > len(pos) and a.vararg is None:
        return '%s takes %d arguments, not %d' % (f.name, len(pos), len(given))
    allowed = {x.arg for x in a.args + a.kwonlyargs}
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in allowed and a.kwarg is None:
            return '%s has no argument %s' % (f.name, k.arg)
        if k.arg in {x.arg for x in pos[:len(given)]}:
            return '%s is given %s twice' % (f.name, k.arg)
    if star:
        return None
    have = {x.arg for x in pos[:len(given)]} | {k.arg for k in call.keywords}
    need = [x.arg for x in pos[:max(0, len(pos) - len(a.defaults))]] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    for x in need:
        if x not in have:
            return '%s needs %s' % (f.name, x)
    return None


def plain(f):
    """decorators that leave the arguments as they are"""
    return all(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in f.decorator_list)


def external(v, call):
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    if isinstance(v, (types.ModuleType,)) or not callable(v):
        return '%s can not be called' % getattr(v, '__name__', v)
    if v in (type, object, str, int, float, dict, print, range, map, filter, zip, min, max, iter, getattr, slice, bytes, bytearray):
        return None
    try:
        s = inspect.signature(v)
    except (ValueError, TypeError):
        return None
    try:
        s.bind(*[None] * len(call.args), **{k.arg: None for k in call.keywords})
    except TypeError as e:
        return '%s: %s' % (getattr(v, '__name__', v), e)
    return None


def check_def(w, m2, d, call, bound):
    if isinstance(d, ast.ClassDef):
        r = w.mro(m2, d)
        if r is None or d.keywords or d.decorator_list or w.member(m2, d, '__new__') is not UNKNOWN and w.member(m2, d, '__new__') is not None:
            return None
        for a, b in r:
            if a == 'ext':
                return None
            fs = [x for x in class_level(b) if isinstance(x, ast.FunctionDef) and x.name == '__init__']
            if fs:
                return min((arity(f, call, True) for f in fs), key=lambda x: x is not None) if all(plain(f) for f in fs) else None
        if call.args or call.keywords:
            return '%s takes no arguments' % d.name
        return None
    if not plain(d):
        return None
    return arity(d, call, bound)


def calls(c):
    w = world(c)
    if w is None:
        return
    rule = 'calls fit what they call'
    named = {}
    for m in w.mods.values():
        for k in m.classes.values():
            for x in class_level(k):
                if isinstance(x, ast.FunctionDef):
                    named.setdefault(x.name, []).append((m, x))
    for name, m in sorted(w.mods.items()):
        run = w.nodes.get(name, set())
        count = 0
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call) or n not in run:
                continue
            count += 1
            bad = call_error(w, m, n, named)
            if bad and not guarded(m, n, 'calls'):
                c.bad(rule, site(m, n), bad)
        if count:
            c.ok(rule, m.path, '%d calls' % count)
    traps(c, w)


def call_error(w, m, n, named):
    f = n.func
    if isinstance(f, ast.Constant):
        return 'a constant is called'
    first = f
    while isinstance(first, ast.Attribute):
        first = first.value
    if isinstance(first, ast.Name) and not shadowed(m, first):
        if isinstance(f, ast.Name) and f.id not in m.env and f.id not in m.defs:
            if f.id not in m.exports and hasattr(builtins, f.id):
                return external(getattr(builtins, f.id), n)
            return nested(m, n)
        if first.id in m.env or first.id in m.defs:
            r = w.resolve(w.name_of(m, f))
            if r is None or r is UNKNOWN:
                return None
            if r[0] == 'mod':
                return 'module %s is called' % r[1].name
            if r[0] == 'ext':
                return external(r[1], n) if not (inspect.ismethoddescriptor(r[1])) else None
            if r[0] == 'def':
                p = m_owner(r[1], r[2])
                bound = False
                if isinstance(p, ast.ClassDef) and isinstance(r[2], ast.FunctionDef):
                    bound = any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in r[2].decorator_list)
                return check_def(w, r[1], r[2], n, bound)
            return None
    if isinstance(f, ast.Name):
        return nested(m, n)
    if not isinstance(f, ast.Attribute):
        return None
    v = f.value
    k = None
    exact = False
    if isinstance(v, ast.Name):
        kk, ff = method_of(m, n)
        if kk is not None and ff.args.args and v.id == ff.args.args[0].arg and not static(ff) and not rebound(ff, v.id):
            k = (m, kk)
        else:
            e = single(w, m, v)
            k = instance(w, m, e) if e is not None else None
            exact = k is not None
    elif isinstance(v, ast.Call):
        if isinstance(v.func, ast.Name) and v.func.id == 'super':
            kk, ff = method_of(m, n)
            if kk is None:
                return None
            bs = w.bases(m, kk)
            if not bs or len(bs) != 1 or bs[0][0] == 'ext':
                return None
            r = w.member(bs[0][0], bs[0][1], f.attr)
            if r is None:
                return None if hasattr(object, f.attr) else 'no method %s in the bases of %s' % (f.attr, kk.name)
            if r is UNKNOWN or r[0] != 'def':
                return None
            return check_def(w, r[1], r[2], n, not static(r[2]))
        k = instance(w, m, v)
        exact = k is not None
    if f.attr == 'add_argument' and any(d.startswith('argparse') for d in m.env.values()) and not package_method(w, 'add_argument'):
        return argument(n)
    if k is not None:
        held = held_class(w, k, f.attr)
        if held:
            errs = [check_def(w, r[1], r[2], n, False) for r in held]
            return errs[0] if all(errs) else None
        found = []
        group = [k] + ([] if exact else w.subclasses(*k))
        for g in group:
            if f.attr in foreign_stores(w):
                return None
            r = w.member(g[0], g[1], f.attr)
            if r is None and f.attr in self_stores_all(w, g):
                return None
            if r is None or r is UNKNOWN or r[0] != 'def' or not isinstance(r[2], ast.FunctionDef):
                if len(group) == 1:
                    return None
                continue
            if f.attr in self_stores_all(w, g):
                return None
            found.append(check_def(w, r[1], r[2], n, not static(r[2])))
        if found and all(found):
            return found[0]
        # the method called belongs to the class itself: it must fit unless the class is abstract
        return None
    # an object of unknown class: some method of that name must fit
    if f.attr in named and f.attr not in w.std and f.attr not in w.stores:
        errs = [check_def(w, mm, d, n, not static(d)) for mm, d in named[f.attr]]
        errs += [check_def(w, mm, d, n, False) for mm in w.mods.values() for q, d in mm.defs.items() if q == f.attr]
        if errs and all(errs):
            return errs[0]
    return None


def argument(n):
    """keywords of add_argument"""
    import argparse
    if any(k.arg is None for k in n.keywords):
        return None
    a = next((k.value for k in n.keywords if k.arg == 'action'), ast.Constant('store'))
    if not isinstance(a, ast.Constant) or not isinstance(a.value, (str, type(None))):
        return None
    k = argparse.ArgumentParser()._registries['action'].get(a.value)
    if k is None:
        return 'no action %s' % a.value
    ok = set(inspect.signature(k.__init__).parameters) | {'action', 'dest', 'required'}
    for x in n.keywords:
        if x.arg not in ok:
            return 'add_argument has no argument %s here' % x.arg
    return None


def held_class(w, k, attr):
    """classes and functions that an attribute of the object holds, if all are known"""
    group = (w.mro(*k) or [])
    for s in w.subclasses(*k):
        group = group + (w.mro(*s) or [])
    vals, count = [], 0
    for a, b in group:
        if a == 'ext':
            continue
        for x in ast.walk(b):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Attribute) and y.attr == attr or isinstance(y, ast.Name) and y.id == attr and m_owner(a, x) is b:
                            count += 1
                            d = w.name_of(a, x.value) if y is t else None
                            r = w.resolve(d) if d and not shadowed(a, x.value) else None
                            if r and r is not UNKNOWN and r[0] == 'def' and isinstance(r[2], ast.ClassDef):
                                vals.append(r)
            elif isinstance(x, ast.FunctionDef) and x.name == attr:
                return None
    if attr in foreign_stores(w) or not vals or len(vals) != count:
        return None
    return vals


def self_stores_all(w, g):
    r = w.mro(*g)
    out = set()
    for a, b in r or ():
        if a != 'ext':
            out |= self_stores(b)
    return out


def nested(m, n):
    """call of a function defined inside the calling one"""
    f = local_scope(m, n)
    if not isinstance(f, ast.FunctionDef):
        return None
    ds = [x for x in ast.walk(f) if isinstance(x, ast.FunctionDef) and x is not f and x.name == n.func.id]
    st = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == n.func.id and not isinstance(x.ctx, ast.Load)]
    if len(ds) == 1 and not st and local_scope(m, ds[0]) is f and not ds[0].decorator_list:
        return arity(ds[0], n, False)
    return None


# what was a list with Python 2
LAZY = ('map', 'filter', 'zip', 'reversed', 'enumerate')
VIEWS = ('keys', 'values', 'items')


def lazy(w, m, v, depth=0):
    if isinstance(v, ast.Call):
        if isinstance(v.func, ast.Name) and v.func.id in LAZY and v.func.id not in m.exports and not shadowed(m, v.func):
            return v.func.id
        if isinstance(v.func, ast.Attribute) and v.func.attr in VIEWS and not v.args and not v.keywords and not package_method(w, v.func.attr):
            return 'view'
    if isinstance(v, ast.GeneratorExp):
        return 'generator'
    if isinstance(v, ast.Name) and depth < 2 and not (v.id in m.env or v.id in m.defs):
        e = single(w, m, v)
        if e is not None:
            return lazy(w, m, e, depth + 1)
    return None


def package_method(w, name):
    return any(name in own_attrs(k) for m in w.mods.values() for k in m.classes.values())


def traps(c, w):
    rule = 'calls fit what they call'
    for name, m in sorted(w.mods.items()):
        run = w.nodes.get(name, set())
        for n in ast.walk(m.tree):
            if n not in run:
                continue
            bad = None
            if isinstance(n, ast.Subscript) and lazy(w, m, n.value):
                bad = 'the result of %s is indexed' % lazy(w, m, n.value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1 and lazy(w, m, n.args[0]) not in (None, 'view'):
                bad = 'the length of %s' % lazy(w, m, n.args[0])
            elif isinstance(n, ast.Attribute) and lazy(w, m, n.value) and isinstance(n.ctx, ast.Load):
                k = lazy(w, m, n.value)
                t = {'view': type({}.keys()), 'generator': types.GeneratorType}.get(k) or getattr(builtins, k)
                if not hasattr(t, n.attr) and n.attr != 'mapping':
                    bad = 'the result of %s has no %s' % (k, n.attr)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Mult)) and (lazy(w, m, n.left) or lazy(w, m, n.right)):
                bad = 'the result of %s in a sum' % (lazy(w, m, n.left) or lazy(w, m, n.right))
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.RShift) and isinstance(n.left, ast.Name) and n.left.id == 'print':
                bad = 'print with >>'
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'sort' and n.args and not package_method(w, 'sort'):
                bad = 'sort with a comparison function'
            if bad and not guarded(m, n, 'calls'):
                c.bad(rule, site(m, n), bad)


# ---------------------------------------------------------------- runs

def runs(c):
    rule = 'no run ends in a missing name, attribute or argument'
    w = world(c)
    if w is None:
        return
    for name in TOOLS + plugins(c):
        def one(name=name):
            for refuse in ((False, True) if name in TOOLS else (False,)):
                e = Entry(c, name, refuse=refuse)
                if not e.ok:
                    continue
                R = e.R
                for guard, exc, where, msg in c.raises(R):
                    if str(exc).split('.')[-1] in ERRORS:
                        c.never(rule, str(where), guard, '%s: %s %s' % (name, exc, msg))
                for p in R.I.pend:
                    if str(p[1]).split('.')[-1] in ERRORS:
                        c.never(rule, e.where, p[0], '%s: %s' % (name, p[1]))
                c.ok(rule, e.where, name)
                c.seen(R)
        c.attempt(name, one)


PARTS = [entry_points, imports, names, attributes, calls, runs]
