"""C31: independence of programs and filters"""
import re

from .entry import *
from .c03 import parse as read, rows, layer_table
from .c15 import raw_table
from .c28 import modules, executed, dotted
from .temp import KINDS
from .stretch import HELPERS

EXPLANATION = ('Reading, editing, comparing, writing, walking, converting and stretching programs is interpreted; afterwards nothing that exists from '
               'the loading of a module on - module variables, class attributes, default arguments and the objects they hold - differs from what it was, '
               'on any path, and comparing or writing leaves the programs as they were. New objects of every class are built before and after and must be in the '
               'same state. All functions of the package and the plugins are searched for assignments to module variables and class attributes and for '
               'changes made to objects held by them or by default arguments.')
RULE = 'nothing shared is changed'
SMALL = [['G1 X# E#', 'G1 Z#', ';', 'G28', 'G92 E#', 'M83'], ['G90', 'G1 Z0.2', 'G1 X1 Y2 E1 F600', 'G1 Z0.4', 'G1 X# E2', 'M82'], []]


def shared(R):
    return {k[0] for k in R.I.static}


def changed(c, R, what):
    """what a run changed of the things that exist since loading"""
    ts = shared(R)
    hit = False
    for k, v in sorted(R.st.m.items(), key=lambda x: str(x[0][1:])):
        if k[0] not in ts or len(k) < 2 or not isinstance(k[1], str):
            continue
        if k[1] == '$new':
            continue
        old = R.I.static.get(k)
        if old is None:
            old = ABSENT
        if old is v or k[0] is WORLD:
            continue
        cond = lift1(lambda l: B(l is not old), v)
        name = getattr(k[0].args[0], 'qual', None) or getattr(k[0].args[0], 'name', None) or str(k[0])
        hit |= not c.never(RULE, site_of(R, k), cond, '%s: %s of %s' % (what, 'content' if k[1] == '$seq' else k[1], name))
    if not hit:
        c.ok(RULE, what, what)


def site_of(R, k):
    for t, n, old, new, pc, s in R.I.writes:
        if t is k[0] and n == k[1]:
            return str(s)
    return 'gcodeutils'


def graph(R, o, depth=4):
    """state of an object as a nested tuple; objects numbered in the order met"""
    num_ = {}

    def f(v, d):
        out = []
        for l in leaves(v):
            out.append(g(l, d))
        return mk('tup', tuple(out)) if len(out) > 1 else out[0]

    def g(l, d):
        if l.op == 'ref':
            if l in num_:
                return C('#%d' % num_[l])
            num_[l] = len(num_)
            if d <= 0:
                return C('...')
            t = l.args[0]
            if t in shared(R):
                return l
            r = [C(str(R.I.class_of(t)))]
            keys = {k[1] for k in R.st.m if len(k) == 2 and k[0] is t and isinstance(k[1], str) and k[1] != '$new'}
            for k in sorted(keys):
                r.append(C(k))
                r.append(f(R.I.read(R.st, t, k), d - 1))
            return mk('tup', tuple(r))
        if l.op in ('tup', 'seq'):
            xs = l.args[0] if l.op == 'tup' else [p.args[0] if p.op == 'e' else p for p in l.args[0]]
            return mk('tup', tuple(f(x, d) if x.op not in ('s', 'fm') else x for x in xs))
        return l
    return f(o, depth)


BUILDS = [
    ('gcodeutils.gcoder.GCode', []), ('gcodeutils.gcoder.LightGCode', []), ('gcodeutils.gcoder.Layer', ['list']), ('gcodeutils.gcoder.PyLine', ['text']),
    ('gcodeutils.gcoder.PyLightLine', ['text']),
    ('gcodeutils.filter.relative_extrusion.GCodeToRelativeExtrusionFilter', []), ('gcodeutils.filter.translate.GCodeXYTranslateFilter', []),
    ('gcodeutils.filter.translate.GCodeXYTranslateFilter', ['x', 'y']), ('gcodeutils.filter.arc_optimizer.GCodeArcOptimizerFilter', []),
    ('gcodeutils.filter.arc_optimizer.Point', []), ('gcodeutils.filter.arc_optimizer.Circle', []),
    ('gcodeutils.stretch.stretch.Slic3rStretchFilter', []), ('gcodeutils.stretch.stretch.CuraStretchFilter', []),
    ('gcodeutils.stretch.stretch.SkeinforgeStretchFilter', []), ('gcodeutils.stretch.stretch.StretchRepository', []), ('gcodeutils.stretch.vector3.Vector3', []),
    ('gcodeutils.visit.visitor.GCodeVisitor', []), ('gcodeutils.visit.pause_at_layer.PauseAtLayer', ['list'])]


def fresh(R):
    """states of new objects of all classes"""
    out = []
    base = R.st
    for q, args in BUILDS:
        k = R.get(q)
        if k is None or k.op != 'cls':
            continue
        R.st = State(dict(base.m), base.pc)
        vals = [R.I.new_list(R.st, seq(num(1))) if a == 'list' else C('G1 X1') if a == 'text' else poly_of(sym(a, 'num')) for a in args]
        n = len(R.I.obligs)
        o = R.call(k, *vals)
        del R.I.obligs[n:]
        if o is not None:
            out.append((q, graph(R, o)))
    R.st = base
    return out


def work(c, R, what, fn):
    """fn(R) with what it changes of shared things looked at"""
    before = fresh(R)
    base = R.st
    R.I.trace_writes = True
    R.I.writes = []
    fn()
    changed(c, R, what)
    R.st = State(dict(R.st.m), base.pc)
    for (q, a), (p, b) in zip(before, fresh(R)):
        k = R.get(q)
        c.same('new objects start in the same state', c.where(R, q), b, a, detail='%s after %s' % (q.split('.')[-1], what))
    c.seen(R)


def start(c):
    R = c.run()
    c.need(R, GC)
    R.I.trace_writes = True
    for q, _ in BUILDS:
        R.get(q)
    for q in (ITER, 'gcodeutils.visit.visitor.GCodeVisitor', TEMP) + tuple(FILTERS):
        R.get(q)
    return R


def programs(c):
    for i, a in enumerate(SMALL):
        R = start(c)

        def fn():
            ts = [text(s, 'a%d' % k) for k, s in enumerate(a)]
            g = R.call(GC, R.I.new_list(R.st, seq(*ts))) if ts else R.call(GC)
            h = R.call(GC, R.I.new_list(R.st, seq(C('G1 X1 E1'), C('G1 Z2'))))
            if g is None or h is None:
                return
            R.method(g, 'append', text('G1 X#', 'app'))
            R.method(g, 'estimate_duration')
            if a:
                R.method(g, 'prepend_to_layer', R.I.new_list(R.st, seq(C('M1'), C('G1 X1'))), num(1))
            old = dict(R.st.m)
            for what, run in (('comparing', lambda: (R.method(g, '__eq__', h), R.method(h, 'diff', g))),
                              ('writing', lambda: R.method(g, 'write', mk('ref', mk('sym', 'target', 'obj', 'file', 'w'))))):
                run()
                m = dict(R.st.m)
                w = c.where(R, GC + ('.diff' if what == 'comparing' else '.write'))
                bad = False
                for k, v in m.items():
                    if k in old and old[k] is not v and len(k) == 2 and (k[1] in ('$seq', '$items') or not k[1].startswith('$')) and k[0] is not WORLD:
                        bad |= not c.never('%s changes nothing' % what, site_of(R, k), lift2(lambda x, y: B(x is not y), old[k], v), '%s of %s' % (k[1], k[0]))
                if not bad:
                    c.ok('%s changes nothing' % what, w, what)
                old = m
        work(c, R, 'reading, editing, comparing and writing ' + ' / '.join(a), fn)


def text(s, tag):
    from .c09 import text as t
    return t(s, tag)


def filters(c):
    for q, args in (('gcodeutils.filter.relative_extrusion.GCodeToRelativeExtrusionFilter', {}), ('gcodeutils.filter.translate.GCodeXYTranslateFilter', {'x': 1, 'y': 2}),
                    ('gcodeutils.filter.arc_optimizer.GCodeArcOptimizerFilter', {}), ('gcodeutils.stretch.stretch.Slic3rStretchFilter', {}),
                    ('gcodeutils.stretch.stretch.CuraStretchFilter', {}), ('gcodeutils.stretch.stretch.SkeinforgeStretchFilter', {})):
        c.attempt(q, one_filter, c, q, args)


FILTERED = [['G90', 'M82', 'G1 X# E#', 'G92 E0', 'G1 X1 Y2 E1 F600', ';TYPE:WALL-OUTER', 'G1 X2 E2', 'G1 X3 Y1 E3', ';TYPE:FILL', 'G1 X4'],
            ['G91', 'M83', 'G0 X1', '; perimeter', 'G1 X# E# ; perimeter', 'G1 X5 Y5 E1 ; perimeter', 'G28', '(<edge> inner', 'G1 X1 Y1', 'M103', '(</edge>)']]


def one_filter(c, q, args):
    for a in FILTERED:
        R = start(c)
        k = R.get(q)
        if k is None or k.op != 'cls':
            c.undecided(RULE, q, 'no such class')
            return

        def fn():
            g, _ = read(c, R, a)
            f = R.call(k, **{x: num(v) for x, v in args.items()})
            if f is not None:
                for h in HELPERS:
                    m, _ = R.I.cls_attr(None, k.args[0], h)
                    if m is not None and m.op == 'fn':
                        R.I.intrinsics[m.args[0].qual] = lambda I, st, a, kw, n: mk('cx', num(Fraction(1, 2)), num(0))
                R.method(f, 'filter', g)
        work(c, R, '%s on %s' % (q.split('.')[-1], ' / '.join(a)), fn)


def arcs(c):
    c.attempt('arcs', fitted, c, secs=300)


def fitted(c):
    """arbitrary moves that may become an arc"""
    from .arc import Arcs
    for rel_e in (FALSE, TRUE):
        a = Arcs(c, rel_e=rel_e)
        if not a.ok:
            return
        for q, _ in BUILDS:
            a.R.get(q)
        work(c, a.R, 'converting 9 arbitrary moves, %s extrusion' % ('relative' if rel_e is TRUE else 'absolute'), lambda: a.run(9))


def visitors(c):
    R = start(c)

    def fn():
        g, _ = read(c, R, ['G1 Z0.2', 'G1 X1 E1', 'G1 Z0.4', 'G1 X# E2'])
        for q, args in (('gcodeutils.visit.visitor.GCodeVisitor', []), ('gcodeutils.visit.pause_at_layer.PauseAtLayer', [R.I.new_list(R.st, seq(num(1)))])):
            i, v = R.call(ITER, g), R.call(q, *args)
            if i is not None and v is not None:
                R.method(i, 'accept', v)
    work(c, R, 'walking', fn)
    for name, q in KINDS:
        R = start(c)

        def temp():
            g, _ = read(c, R, ['G1 Z0.2', 'G1 X1 E1', 'G1 Z0.4', 'G1 X# E2'])
            o = R.call(q, gcode=g, start_temp=num(200), end_temp=num(180), min_z_change=num(0), steps=num(2))
            if o is not None:
                R.method(o, 'write', mk('ref', mk('sym', 'target', 'obj', 'file', 'w')))
        work(c, R, '%s gradient' % name, temp)


# ---------------------------------------------------------------- the text of all functions

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update', 'setdefault', 'popitem', 'appendleft', 'popleft',
            'extendleft', 'rotate', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'fromlist', 'write', '__setitem__'}
MUTABLE_CALLS = {'list', 'dict', 'set', 'bytearray', 'deque', 'defaultdict', 'OrderedDict', 'Counter', 'array', 'StringIO', 'BytesIO', 'ChainMap'}


def mutable(m, n):
    if isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(n, ast.Call):
        f = n.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        return name in MUTABLE_CALLS or name in m.defs
    return False


def changes(nodes, is_it):
    """places where the object an expression stands for is changed"""
    out = []
    for x in nodes:
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and is_it(x.func.value):
            out.append(x)
        elif isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
            ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target]
            for t in [z for y in ts for z in (y.elts if isinstance(y, (ast.Tuple, ast.List)) else [y])]:
                if isinstance(t, (ast.Subscript,)) and is_it(t.value):
                    out.append(x)
                elif isinstance(t, ast.Attribute) and is_it(t.value):
                    out.append(x)
                elif isinstance(x, ast.AugAssign) and is_it(t):
                    out.append(x)
    return out


def local_names(fn):
    a = fn.args
    own = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | {p.arg for p in (a.vararg, a.kwarg) if p}
    glob = set()
    for x in ast.walk(fn):
        if isinstance(x, (ast.Global,)):
            glob |= set(x.names)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            own.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn:
            own.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            own |= {(y.asname or y.name).split('.')[0] for y in x.names}
        elif isinstance(x, ast.ExceptHandler) and x.name:
            own.add(x.name)
    return own - glob, glob


def source(c):
    mods = modules(c)
    top = {}
    for q, m in mods.items():
        names = {}
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
        for n in executed(m.tree):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name):
                        names[t.id] = n.value
        top[q] = names
    classes = {}
    for q, m in mods.items():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                classes.setdefault(n.name, []).append((m, n))
    for q, m in sorted(mods.items()):
        for cls, fn in functions(m.tree):
            function(c, mods, top, classes, q, m, cls, fn)


def functions(tree, cls=None):
    for n in ast.iter_child_nodes(tree):
        if isinstance(n, ast.ClassDef):
            yield from functions(n, n)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield cls, n
            yield from functions(n, cls)
        elif isinstance(n, ast.stmt):
            yield from functions(n, cls)


def function(c, mods, top, classes, q, m, cls, fn):
    where = '%s:%s%s' % (m.path, cls.name + '.' if cls is not None else '', fn.name)
    c.functions.add('%s.%s%s' % (q, cls.name + '.' if cls is not None else '', fn.name))
    own, glob = local_names(fn)
    nodes = [x for s in fn.body for x in ast.walk(s)]
    found = False

    def bad(x, what):
        nonlocal found
        found = True
        c.bad(RULE, '%s:%d' % (where, x.lineno), what)

    def memo(x):
        """a cache: the entry is made when it is missing, never read for another key"""
        return isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) for t in x.targets) and any(
            isinstance(i, ast.Compare) and any(isinstance(o, (ast.NotIn, ast.In)) for o in i.ops) for i in nodes)
    # module variables
    for x in nodes:
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in glob:
            bad(x, 'module variable %s is assigned' % x.id)

    def module_object(e):
        if isinstance(e, ast.Name) and e.id not in own:
            if e.id in top[q] and mutable(m, top[q][e.id]):
                return True
            d = m.env.get(e.id)
            if d and '.' in d:
                a, b = d.rsplit('.', 1)
                return a in top and b in top[a] and mutable(mods[a], top[a][b])
        if isinstance(e, ast.Attribute):
            d = dotted(m, e)
            if d and '.' in d and isinstance(e.value, ast.Name) and e.value.id not in own:
                a, b = d.rsplit('.', 1)
                return a in top and b in top[a] and mutable(mods[a], top[a][b])
        return False

    def module_itself(e):
        return isinstance(e, ast.Name) and e.id not in own and m.env.get(e.id) in mods

    # classes
    first = fn.args.args[0].arg if fn.args.args else None
    decorated = {d.id for d in fn.decorator_list if isinstance(d, ast.Name)}

    def class_itself(e):
        if isinstance(e, ast.Name) and e.id in classes and (e.id not in own):
            return m.defs.get(e.id) is not None or m.env.get(e.id) is not None
        if isinstance(e, ast.Name) and 'classmethod' in decorated and e.id == first:
            return True
        if isinstance(e, ast.Attribute) and e.attr == '__class__':
            return True
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1
    for x in nodes:
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
            if class_itself(x.value):
                bad(x, 'class attribute %s is assigned' % x.attr)
            elif module_itself(x.value):
                bad(x, 'module variable %s is assigned' % x.attr)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'delattr') and x.args and (class_itself(x.args[0]) or module_itself(x.args[0])):
            bad(x, 'class attribute is assigned')

    def class_object(e):
        """self.X or K.X where X is made once, in the body of the class"""
        if not isinstance(e, ast.Attribute):
            return False
        if class_itself(e.value):
            ks = classes.get(e.value.id, []) if isinstance(e.value, ast.Name) and e.value.id in classes else [(m, cls)] if cls is not None else []
        elif isinstance(e.value, ast.Name) and cls is not None and e.value.id == first and 'staticmethod' not in decorated:
            ks = [(m, cls)]
            if e.attr in instance_attrs(classes, m, cls):
                return False
        else:
            return False
        for a, k in [z for y in ks for z in family(classes, *y)]:
            for n in k.body:
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and mutable(a, n.value):
                    if any(isinstance(t, ast.Name) and t.id == e.attr for t in (n.targets if isinstance(n, ast.Assign) else [n.target])):
                        return True
        return False
    # default arguments
    a = fn.args
    pairs = list(zip((a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d]
    held = {p.arg for p, d in pairs if mutable(m, d)}
    kept = set()        # self.X = parameter with a default made once
    for x in nodes:
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in held:
            for t in x.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == first:
                    kept.add(t.attr)
                    attr_changes(c, classes, m, cls, t.attr, where, x)
    rebound = {x.id for x in nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    is_default = lambda e: isinstance(e, ast.Name) and e.id in held and e.id not in rebound
    for kind, is_it in (('module variable', module_object), ('class attribute', class_object), ('default argument', is_default)):
        for x in changes(nodes, is_it):
            if memo(x):
                c.undecided(RULE, '%s:%d' % (where, x.lineno), 'a cache in a %s' % kind)
            else:
                bad(x, 'object held by a %s is changed' % kind)
    # aliases of them
    alias = {}
    for x in nodes:
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            for kind, is_it in (('module variable', module_object), ('class attribute', class_object), ('default argument', is_default)):
                if is_it(x.value):
                    alias.setdefault(x.targets[0].id, []).append((kind, x))
    for name, al in alias.items():
        assigned = [x for x in nodes if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
        if len(assigned) == 1:
            for x in changes(nodes, lambda e: isinstance(e, ast.Name) and e.id == name):
                bad(x, 'object held by a %s is changed' % al[0][0])
    if not found:
        c.ok(RULE, where, fn.name)


def family(classes, m, k, seen=None):
    """the class and its bases of the package"""
    seen = seen if seen is not None else []
    if any(x is k for _, x in seen):
        return seen
    seen.append((m, k))
    for b in k.bases:
        n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
        for x in classes.get(n, ()):
            family(classes, x[0], x[1], seen)
    return seen


def instance_attrs(classes, m, k):
    """attributes every new instance is given (by __init__ of the class or a base)"""
    out = set()
    for _, x in family(classes, m, k):
        for f in x.body:
            if isinstance(f, ast.FunctionDef) and f.args.args:
                s = f.args.args[0].arg
                for y in ast.walk(f):
                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name) and y.value.id == s:
                        out.add(y.attr)
    return out


def attr_changes(c, classes, m, cls, attr, where, at):
    """a default argument is kept as an attribute: is it changed by a method?"""
    for _, k in family(classes, m, cls):
        for f in k.body:
            if isinstance(f, ast.FunctionDef) and f.args.args:
                s = f.args.args[0].arg
                nodes = [x for y in f.body for x in ast.walk(y)]
                for x in changes(nodes, lambda e: isinstance(e, ast.Attribute) and e.attr == attr and isinstance(e.value, ast.Name) and e.value.id == s):
                    c.bad(RULE, '%s:%d' % (where, at.lineno), 'a default argument is kept as %s, which %s changes' % (attr, f.name))


PARTS = [source, programs, filters, arcs, visitors]
