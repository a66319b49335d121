"""C28: standard output carries nothing but the program"""
import re

from .entry import *
from .c02 import text_of
from .temp import *

EXPLANATION = ('Every command line tool is interpreted from its command line to its end; on every path all text written to standard output is either '
               'nothing or exactly the text of the modified program. Every other function that the tools can reach (names resolved to all '
               'functions and methods that bear them) and every module they import is searched for uses of standard output: print without a '
               'file, the stdout objects of sys, log handlers and functions that write to it by themselves.')
# functions that write to standard output unless told otherwise (keyword that redirects them)
WRITERS = {'print': 'file', 'pprint.pprint': 'stream', 'pprint.pp': 'stream', 'input': None, 'help': None, 'breakpoint': None, 'print_help': 'file',
           'print_usage': 'file', 'os.system': None, 'sys.displayhook': None, 'dis.dis': 'file', 'pprint.PrettyPrinter': 'stream', 'timeit.main': None,
           'raw_input': None}
RULE = 'no diagnostics on standard output'


def stdout_text(q):
    rows = event_rows(q)
    if rows is None:
        return mk('opaque', q)
    return strcat([C('')] + [r[2] for r in rows if kind_of(r) == 'write' and r[1] is STDOUT])


def runs(c):
    done, hooked = set(), set()
    for name in TOOLS:
        for refuse in (False, True):
            e = Entry(c, name, refuse=refuse)
            if not e.ok:
                continue
            R = e.R
            done |= set(R.I.functions_seen)
            hooked |= e.hooked
            if len(e.refs) != 1:
                c.undecided('one program is parsed', e.where, '%s: %d' % (name, len(e.refs)))
                continue
            g = e.refs[0]
            ends = [(R.st.pc, R.st)] + [(p[0], p[3]) for p in R.I.pend]
            for k, (pc, st) in enumerate(ends):
                ev = st.m.get((WORLD, '$ev'), EMPTYSEQ)
                got = lift1(stdout_text, ev)
                if any(l.op == 'opaque' for l in leaves(got)):
                    c.undecided('standard output is the program', e.where, '%s: writes in a loop' % name)
                    continue
                none = lift1(lambda t: B(t is C('')), got)
                if none is TRUE:
                    c.ok('standard output is the program or nothing', e.where, name)
                    continue
                temp = any(kind_of(r) == 'temp' for l in leaves(ev) for r in event_rows(l) or ())
                old, R.st = R.st, st
                try:
                    text = temp_text(g) if temp else text_of(R, R.attr(g, 'all_layers'))
                finally:
                    R.st = old
                care = band(pc, oblig_care(R, c, pc)) if st is R.st else pc
                # nothing, or the program
                c.same('standard output is the program or nothing', e.where, ite(none, C(''), got), ite(none, C(''), text), care, detail=name)
            c.no_unsup(R)
    return done - hooked


class Module(object):
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.env = {}           # names -> dotted external names, or package modules/functions
        self.defs = {}
        for n in tree.body:
            self.top(n)

    def top(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.defs[n.name] = n
        elif isinstance(n, (ast.If, ast.Try)):
            for x in ast.iter_child_nodes(n):
                if isinstance(x, ast.stmt):
                    self.top(x)
                elif isinstance(x, ast.ExceptHandler):
                    for y in x.body:
                        self.top(y)


def is_main_guard(n):
    return isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == '__name__' for x in ast.walk(n.test))


def modules(c):
    out = {}
    top = os.path.join(c.root, 'gcodeutils')
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__'))
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, c.root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                out[name] = Module(name, rel, parse_file(p))
    for m in out.values():
        imports(m, m.tree)
    return out


def imports(m, tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                m.env[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ''
            if n.level:
                up = m.name.split('.')
                if not m.path.endswith('__init__.py'):
                    up = up[:-1]
                up = up[:len(up) - n.level + 1]
                base = '.'.join(up + ([n.module] if n.module else []))
            for a in n.names:
                m.env[a.asname or a.name] = base + '.' + a.name


def own_nodes(n):
    """nodes executed when n's body runs or its definition is evaluated; functions defined inside are included"""
    return ast.walk(n)


def reach(mods):
    """(module, definition or module tree) pairs reachable from the tools"""
    todo, seen = [], []
    by_name = {}
    for m in mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                by_name.setdefault(n.name, []).append((m, n))

    def add(m, n):
        if not any(a is m and b is n for a, b in seen):
            seen.append((m, n))
            todo.append((m, n))

    def add_module(m):
        add(m, m.tree)

    for t in TOOLS:
        if t in mods:
            add_module(mods[t])
            if 'main' in mods[t].defs:
                add(mods[t], mods[t].defs['main'])
    while todo:
        m, n = todo.pop()
        for x in executed(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                named(mods, m, x.id, add, add_module)
            elif isinstance(x, ast.Attribute):
                for a, b in by_name.get(x.attr, ()):
                    add(a, b)
                d = dotted(m, x)
                if d is not None:
                    dotted_ref(mods, d, add, add_module)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    if isinstance(x, ast.Import):
                        d = a.name
                    else:
                        d = m.env.get(a.asname or a.name, '')
                    p = d.split('.')
                    for k in range(1, len(p) + 1):
                        q = '.'.join(p[:k])
                        if q in mods:
                            add_module(mods[q])
    return seen


def dotted(m, x):
    parts = []
    while isinstance(x, ast.Attribute):
        parts.append(x.attr)
        x = x.value
    if isinstance(x, ast.Name) and x.id in m.env:
        return '.'.join([m.env[x.id]] + parts[::-1])
    return None


def named(mods, m, name, add, add_module):
    if name in m.defs:
        define(m, m.defs[name], add)
    elif name in m.env:
        dotted_ref(mods, m.env[name], add, add_module)
    else:
        if not hasattr(m, 'inner'):     # nested functions
            m.inner = {}
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    m.inner.setdefault(n.name, []).append(n)
        for n in m.inner.get(name, ()):
            define(m, n, add)


def dotted_ref(mods, d, add, add_module):
    p = d.split('.')
    for k in range(len(p), 0, -1):
        q = '.'.join(p[:k])
        if q in mods:
            if k < len(p):
                if p[k] in mods[q].defs:
                    define(mods[q], mods[q].defs[p[k]], add)
                elif p[k] in mods[q].env and mods[q].env[p[k]] != d:
                    dotted_ref(mods, mods[q].env[p[k]], add, add_module)
            return


def define(m, n, add):
    if isinstance(n, ast.ClassDef):
        for x in n.body:
            if isinstance(x, ast.FunctionDef) and (x.name.startswith('__') and x.name.endswith('__') or x.decorator_list):
                add(m, x)
    else:
        add(m, n)


def executed(n):
    """nodes that run when the module is loaded / the function is called"""
    if isinstance(n, ast.Module):
        body = list(n.body)
        out = []
        while body:
            x = body.pop(0)
            if is_main_guard(x):
                continue
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in x.decorator_list + x.args.defaults + [k for k in x.args.kw_defaults if k]:
                    out += list(ast.walk(d))
            elif isinstance(x, ast.ClassDef):
                for d in x.bases + x.decorator_list:
                    out += list(ast.walk(d))
                body = list(x.body) + body
            else:
                rest = []
                for y in ast.iter_child_nodes(x):
                    if isinstance(y, ast.stmt):
                        rest.append(y)
                    elif isinstance(y, ast.ExceptHandler):
                        rest += y.body
                    else:
                        out += list(ast.walk(y))
                out.append(x)
                body = rest + body
        return out
    return [x for s in n.body for x in ast.walk(s)]


def is_stdout(m, x, tainted):
    if isinstance(x, ast.Attribute):
        if x.attr in ('stdout', '__stdout__'):
            d = dotted(m, x)
            return d is None or d in ('sys.stdout', 'sys.__stdout__')
        if x.attr == 'buffer':
            return is_stdout(m, x.value, tainted)
        return False
    if isinstance(x, ast.Name):
        return x.id in tainted or m.env.get(x.id) in ('sys.stdout', 'sys.__stdout__')
    if isinstance(x, ast.IfExp):
        return is_stdout(m, x.body, tainted) or is_stdout(m, x.orelse, tainted)
    if isinstance(x, ast.BoolOp):
        return any(is_stdout(m, y, tainted) for y in x.values)
    return False


def callee(m, f):
    if isinstance(f, ast.Name):
        return m.env.get(f.id, f.id)
    return dotted(m, f) or (f.attr if isinstance(f, ast.Attribute) else '?')


def search(c, m, n, judged):
    """uses of standard output in one body; 'judged': the runs decide about what is written to given files"""
    name = '%s:%s' % (m.path, getattr(n, 'name', 'module'))
    nodes = executed(n)
    tainted = set()
    scope = list(ast.walk(m.tree)) if isinstance(n, ast.Module) else nodes + executed(m.tree)
    for _ in range(3):
        for x in scope:
            if isinstance(x, ast.Assign) and is_stdout(m, x.value, tainted):
                tainted |= {t.id for t in x.targets if isinstance(t, ast.Name)}
    if isinstance(n, ast.FunctionDef):
        a = n.args
        own = {p.arg for p in a.args + a.kwonlyargs}
        tainted -= own
        for p, d in list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
            if is_stdout(m, d, set()) and not judged:
                tainted.add(p.arg)
    hit = False

    def bad(x, what):
        nonlocal hit
        hit = True
        c.bad(RULE, '%s:%d' % (name, x.lineno), what)
    for x in nodes:
        if not isinstance(x, ast.Call):
            continue
        d = callee(m, x.func)
        last = d.split('.')[-1]
        w = d if d in WRITERS else last if last in ('print_help', 'print_usage') else None
        if w is not None and w not in m.defs:
            f = next((k.value for k in x.keywords if k.arg == WRITERS[w]), None) if WRITERS[w] else None
            if f is None and any(k.arg is None for k in x.keywords):
                c.undecided(RULE, '%s:%d' % (name, x.lineno), w + ' with unknown keywords')
            elif f is None and w in ('print_help', 'print_usage') and x.args:
                f = x.args[0]
            if f is None or isinstance(f, ast.Constant) and f.value is None or is_stdout(m, f, tainted):
                if not judged or WRITERS[w] is None:
                    bad(x, w + ' writes to standard output')
            continue
        if last in ('StreamHandler', 'basicConfig', 'dictConfig', 'setStream') or d.startswith('logging.') or d.startswith('warnings.'):
            if any(is_stdout(m, y, tainted) for y in list(x.args) + [k.value for k in x.keywords]):
                bad(x, last + ' sends messages to standard output')
                continue
            if last == 'dictConfig':
                c.undecided(RULE, '%s:%d' % (name, x.lineno), 'log configuration by dictionary')
        if isinstance(x.func, ast.Attribute) and last in ('write', 'writelines') and is_stdout(m, x.func.value, tainted) and not judged:
            bad(x, 'writes to standard output')
        if d == 'os.write' and x.args and not (isinstance(x.args[0], ast.Constant) and x.args[0].value == 2):
            if isinstance(x.args[0], ast.Constant) and x.args[0].value == 1:
                bad(x, 'writes to standard output')
            else:
                c.undecided(RULE, '%s:%d' % (name, x.lineno), 'os.write to an unknown file')
        if last in ('traceback.print_exc', 'print_exc', 'print_stack', 'print_exception') and any(is_stdout(m, k.value, tainted) for k in x.keywords):
            bad(x, 'writes to standard output')
        if d.split('.')[0] == 'subprocess':
            c.undecided(RULE, '%s:%d' % (name, x.lineno), 'runs another program')
    for x in nodes:
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and dotted(m, t) == 'sys.stderr' for t in x.targets) and is_stdout(m, x.value, tainted):
            bad(x, 'standard error replaced by standard output')
        if isinstance(x, (ast.Assign, ast.AugAssign)) and isinstance(x.value, ast.AST) and any(
                isinstance(t, ast.Attribute) and t.attr == 'stream' for t in (x.targets if isinstance(x, ast.Assign) else [x.target])) and is_stdout(m, x.value, tainted):
            bad(x, 'messages sent to standard output')
    if not hit:
        c.ok(RULE, name)


def gradient(c):
    """writing the temperature gradient: what is written is the program and the commands of the gradient"""
    done = None
    for kind, cls in KINDS:
        for shape in ((2,), (1, 1)) if kind == 'continuous' else ((2,),):
            t = Temp(c, cls, shape)
            if not t.ok:
                continue
            seen = set(t.R.I.functions_seen)
            done = seen if done is None else done & seen
            raws = set(t.raws())
            rule = 'only the program and the temperatures are written'

            def foreign(q):
                rows = event_rows(q)
                if rows is None:
                    return mk('opaque', q)
                for r in rows:
                    if kind_of(r) == 'write' and r[1] is STDOUT:
                        return TRUE
                    if kind_of(r) == 'write' and r[1] is t.out:
                        for x in leaves(r[2]):
                            for p in (x.args[0] if x.op == 'cat' else [x]):
                                if p not in raws and not temperature(p):
                                    return TRUE
                return FALSE
            v = lift1(foreign, t.events())
            if any(l.op == 'opaque' for l in leaves(v)):
                c.undecided(rule, t.where, 'writes in a loop')
                return
            c.never(rule, t.where, band(t.R.st.pc, v), 'something else is written')
            if v is FALSE:
                c.ok(rule, t.where)
    c.c28_done = getattr(c, 'c28_done', set()) | (done or set())


def temperature(p):
    """a piece of a set-temperature command, or a line end"""
    if p.op == 'c':
        return isinstance(p.args[1], str) and bool(re.match(r'^(M10[49] (T\d )?S[\d.]*|[\d.]*)?\n*$', p.args[1]))
    return p.op == 'app' and p.args[0] in ('fmt', 'str', 'repr')


def uses(c):
    mods = modules(c)
    judged = getattr(c, 'c28_done', None)
    if judged is None:
        c.undecided(RULE, 'gcv.checks.c28', 'the runs of the tools are not decided')
        return
    for m, n in reach(mods):
        c.functions.add('%s.%s' % (m.name, getattr(n, 'name', '<module>')))
        q = '%s.%s' % (m.name, getattr(n, 'name', ''))
        search(c, m, n, isinstance(n, ast.FunctionDef) and in_runs(m, n, judged))


def in_runs(m, n, judged):
    names = {'%s.%s' % (m.name, n.name)} | {'%s.%s.%s' % (m.name, k.name, n.name) for k in m.tree.body if isinstance(k, ast.ClassDef) and n in k.body}
    return bool(names & judged)


def entry_runs(c):
    c.c28_done = runs(c)


PARTS = [entry_runs, gradient, uses]
