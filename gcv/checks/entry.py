"""runs of the shipped entry points with parsing and filtering replaced by arbitrary ones"""
import ast
import glob
import os
import warnings

from .common import *
from ..interp import WORLD, Mod, Frame
from ..ex import Flow, Raise
from ..lib import STDOUT, STDERR, STDIN, LOGROOT
from ..state import *

TOOLS = ['gcodeutils.gcode_mod', 'gcodeutils.gcode_stretch', 'gcodeutils.gcode_optimize_arcs', 'gcodeutils.gcode_tempcal']
FILTERS = ['gcodeutils.filter.filter.GCodeFilter', 'gcodeutils.filter.translate.GCodeXYTranslateFilter',
           'gcodeutils.filter.relative_extrusion.GCodeToRelativeExtrusionFilter', 'gcodeutils.filter.arc_optimizer.GCodeArcOptimizerFilter',
           'gcodeutils.stretch.stretch.StretchFilter', 'gcodeutils.stretch.stretch.CuraStretchFilter',
           'gcodeutils.stretch.stretch.Slic3rStretchFilter', 'gcodeutils.stretch.stretch.SkeinforgeStretchFilter']
TEMP = 'gcodeutils.gcode_tempcal.GCodeTempGradient'
ITER = 'gcodeutils.visit.iterator.GCodeIterator'
SHAPE = (1, 2)


def parse_file(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with open(f, encoding='utf-8') as h:
            return ast.parse(h.read(), f)


def temp_text(g):
    return lift1(lambda x: mk('sym', mk('app', 'tempprogram', x), 'str'), g)


class Entry(object):
    """one entry point, run"""

    def __init__(self, c, name, shape=SHAPE, temp=True, refuse=False, keep=False):
        self.c, self.name, self.shape = c, name, shape
        self.refuse = refuse
        self.keep = keep            # filters leave the lines as they are
        self.lines = []
        R = self.R = c.run()
        c.need(R, GC)
        self.stage = 0
        self.refs = []              # programs parsed, in order
        self.saved = {}
        R.st.m[(LOGROOT, '$level')] = num(30)
        self.hook(temp)
        self.ok = False
        try:
            if name in TOOLS:
                f = R.get(name + '.main')
                self.where = c.where(R, name + '.main')
                if f is None:
                    c.undecided('entry point', name, 'no main()')
                    return
                R.call(f)
            else:
                self.where = name
                self.plugin(name)
            self.ok = True
        finally:
            self.hooked = set(R.I.intrinsics)
            R.I.intrinsics.clear()
        c.seen(R)

    # -- replacements

    def hook(self, temp):
        R = self.R
        ins = R.I.intrinsics
        ins[GC + '.__init__'] = self.parse
        ins[GC + '.prepare'] = self.parse
        for q in FILTERS:
            m = R.get(q)
            if m is None:
                continue
            f, _ = R.I.cls_attr(None, m.args[0], 'filter')
            if f is not None and f.op == 'fn':
                ins[f.args[0].qual] = self.filtered
        R.get(ITER)
        ins[ITER + '.accept'] = self.visited
        if temp:
            R.get(TEMP)
            ins[TEMP + '.write'] = self.tempwrite

    def fill(self, st, g, tag):
        R = self.R
        if self.shape is None:      # any number of layers of any number of lines
            if (g.args[0], 'all_layers') not in st.m:
                st.m[(g.args[0], 'all_layers')] = mk('ref', mk('sym', tag + '.layers', 'obj', 'list:obj:' + LAYER))
                st.m[(g.args[0], 'lines')] = mk('ref', mk('sym', tag + '.lines', 'obj', 'list:obj:' + LINE))
            return
        layers, flat, k = [], [], 0
        old = st.m.get((g.args[0], 'all_layers'))
        old = [p.args[0] for p in R.I.content(st, old).args[0]] if old is not None and old.op == 'ref' else None
        for j, n in enumerate(self.shape):
            own = [mk('ref', mk('sym', '%s.%d' % (tag, k + q), 'obj', LINE)) for q in range(n)]
            k += n
            flat += own
            self.lines += own
            if old:
                R.I.set_content(st, old[j], seq(*own), None)
            else:
                t = mk('sym', '%s.layer%d' % (tag, j), 'obj', LAYER)
                st.m[(t, '$seq')] = seq(*own)
                layers.append(mk('ref', t))
        if not old:
            st.m[(g.args[0], 'all_layers')] = R.I.new_list(st, seq(*layers))
            st.m[(g.args[0], 'zmax')] = poly_of(sym(tag + '.zmax', 'num'))
            st.m[(g.args[0], 'zmin')] = poly_of(sym(tag + '.zmin', 'num'))
            st.m[(g.args[0], 'all_zs')] = R.I.new_list(st, seq())
        st.m[(g.args[0], 'lines')] = R.I.new_list(st, seq(*flat))

    def parse(self, I, st, args, kw, n):
        g = args[0]
        data = args[1] if len(args) > 1 else kw.get('data')
        if g.op != 'ref' or data is None or data is NONE:
            return None
        if data.op == 'ref' and I.class_of(data.args[0]) == 'file':
            I.event(st, 'read', data)
            src = data
        else:
            src = mk('tup', (C('lines'), mk('box', I.iter_seq(st, data, n))))
        I.event(st, 'parse', g, src)
        self.stage += 1
        self.refs.append(g)
        self.fill(st, g, 'p%d' % self.stage)
        return NONE

    def changed(self, I, st, kind, obj, g, n):
        self.stage += 1
        I.event(st, kind, C(str(I.class_of(obj.args[0]))) if obj.op == 'ref' else C('?'), obj, g)
        snap = dict(st.m)
        self.saved[(kind, self.stage)] = (obj, State(snap, st.pc))
        if g is not None and g.op == 'ref' and not self.keep:
            self.fill(st, g, 'p%d' % self.stage)
        return NONE

    def refusal(self, I, st, what, n):
        k = len(I.pend)
        I.raise_(st, lit(atom('truthy', mk('app', 'refused', what))), 'RuntimeError', n, 'refused')
        for p in I.pend[k:]:
            I.event(p[3], 'refused', C(what))

    def filtered(self, I, st, args, kw, n):
        if self.refuse:
            self.refusal(I, st, 'filter%d' % self.stage, n)
        return self.changed(I, st, 'filter', args[0], args[1] if len(args) > 1 else kw.get('gcode'), n)

    def visited(self, I, st, args, kw, n):
        it = args[0]
        v = args[1] if len(args) > 1 else kw.get('visitor')
        g = NONE
        for k, x in list(st.m.items()):
            if len(k) == 2 and k[0] is it.args[0] and isinstance(k[1], str) and x.op == 'ref' and x in self.refs:
                g = x
        return self.changed(I, st, 'visit', v, g, n)

    def tempwrite(self, I, st, args, kw, n):
        f = args[1] if len(args) > 1 else kw.get('output_file', STDOUT)
        g = I.getattr(st, args[0], 'gcode', n)
        if self.refuse:
            self.refusal(I, st, 'temperature', n)
        self.changed(I, st, 'temp', args[0], NONE, n)

        def each(s, x):
            if x.op == 'ref':
                m = I.find_method(s, x, 'write')
                if m is not None:
                    I.call(s, m, [temp_text(g)], {}, n)
                    return NONE
            I.event(s, 'write', x, temp_text(g))
            return NONE
        I.lift_eff(st, f, each)
        return NONE

    # -- Cura plugins: scripts run with the parameters as global names

    def plugin(self, path):
        R = self.R
        f = os.path.join(self.c.root, path)
        src = open(f, encoding='utf-8').read()
        tree = ast.parse(src, f)
        m = Mod('plugin:' + path, path, tree)
        m.is_pkg = False
        R.I.static[(m.term, '__name__')] = C('plugin')
        self.params = {}
        R.I.static[(m.term, 'filename')] = mk('sym', 'filename', 'str')
        import re
        for x in re.finditer(r'^#Param:\s*(\w+)\(\s*(\w+)\s*:\s*([^)]*)\)', src, re.M):
            v = mk('sym', 'param:' + x.group(1), 'str') if x.group(2) == 'string' else poly_of(sym('param:' + x.group(1), 'int' if x.group(1) == 'steps' else 'num'))  # a number of steps is whole
            self.params[x.group(1)] = (x.group(2), x.group(3).strip(), v)
            R.I.static[(m.term, x.group(1))] = v
        fr = Frame(None, m, None, None)
        fr.term = m.term
        self.term = m.term
        R.I.frames.append(fr)
        try:
            out = R.I.block(tree.body, R.st, Flow())
            if out is not None:
                R.st = out
        except Raise:
            pass
        finally:
            R.I.frames.pop()

    # -- results

    def events(self):
        return self.R.st.m.get((WORLD, '$ev'), EMPTYSEQ)

    def outfile(self):
        for t, k in {(k[0], k[1]) for k in self.R.st.m if len(k) == 2 and k[1] == 'outfile'}:
            return self.R.st.m[(t, k)]
        return None

    def namespace(self):
        """{dest: value} of the parsed command line"""
        for k in self.R.st.m:
            if len(k) == 2 and k[1] == 'infile':
                t = k[0]
                return {q[1]: v for q, v in self.R.st.m.items() if q[0] is t and len(q) == 2}
        return {}


def plugins(c):
    return sorted(os.path.relpath(f, c.root) for f in glob.glob(os.path.join(c.root, 'cura_plugins', '*.py')))


def event_rows(q):
    """events of a known event sequence as tuples, None if there is a loop in it"""
    out = []
    for p in q.args[0]:
        if p.op != 'e' or p.args[0].op != 'tup':
            return None
        out.append(p.args[0].args[0])
    return out


def steps(q):
    """like event_rows; the writes of a loop are listed once for each file"""
    out = []
    for p in q.args[0]:
        if p.op == 'e' and p.args[0].op == 'tup':
            out.append(p.args[0].args[0])
        elif p.op == 'fm':
            for l in leaves(p.args[2]):
                rows = steps(l) if l.op == 'seq' else None
                if rows is None or any(kind_of(r) != 'write' for r in rows):
                    return None
                out += rows
        else:
            return None
    return out


def kind_of(row):
    return row[0].args[1] if row[0].op == 'c' else None


def written(q, ignore=(STDERR,)):
    """diagram: tuple of (file, all text written to it), or opaque"""
    rows = event_rows(q)
    if rows is None:
        return mk('opaque', q)
    out = {}
    for r in rows:
        if kind_of(r) == 'write' and r[1] not in ignore:
            out.setdefault(r[1], []).append(r[2])
    res = mk('tup', ())
    for f in sorted(out, key=lambda x: x.id):
        t = strcat(out[f])
        res = lift2(lambda a, b, f=f: a if b is C('') else mk('tup', a.args[0] + (mk('tup', (f, b)),)), res, t)
    return res
