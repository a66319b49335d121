"""runs of the temperature gradient classes on programs of given shapes"""
import re

from .entry import *
from ..alg import pdiv, round_, whole

BASE = 'gcodeutils.gcode_tempcal.'
KINDS = [('stepped', BASE + 'GCodeStepTempGradient'), ('continuous', BASE + 'GCodeContinuousTempGradient')]
LOW, HIGH = 150, 250


class Temp(object):
    """one gradient object writing a program whose layers have the given numbers of lines.

    zs: heights of the layers (arbitrary or none where not given); settings: start, end, steps, minz, top (arbitrary where
    not given); before: values of attributes of the object before it writes (those of a program's other layers)"""

    def __init__(self, c, cls, shape, zs=None, before=None, **settings):
        self.c, self.shape = c, shape
        R = self.R = c.run()
        c.need(R, GC)
        self.ok = False
        k = R.get(cls)
        if k is None or k.op != 'cls':
            c.undecided('temperature gradient', cls, 'no such class')
            return
        self.where = c.where(R, TEMP + '.write')
        g = self.g = R.obj('gc', GC)
        self.lines, layers = [], []
        self.layers, self.z = [], []
        for j, n in enumerate(shape):
            ls = [R.obj('l%d.%d' % (j, q), LINE) for q in range(n)]
            self.layers.append(ls)
            self.lines += ls
            t = mk('sym', 'layer%d' % j, 'obj', LAYER)
            R.st.m[(t, '$seq')] = seq(*ls)
            layers.append(mk('ref', t))
            for q, x in enumerate(ls):
                z = nullable(sym('z%d.%d' % (j, q), 'num'), 'num') if q or zs is None or zs[j] is None else zs[j]
                R.st.m[(x.args[0], 'current_z')] = z
                if q == 0:
                    self.z.append(z)
            if not ls:
                self.z.append(None)
        R.st.m[(g.args[0], 'all_layers')] = R.I.new_list(R.st, seq(*layers))
        R.st.m[(g.args[0], 'lines')] = R.I.new_list(R.st, seq(*self.lines))

        def val(name, kind='num'):
            v = settings.get(name)
            return poly_of(sym(name, kind)) if v is None else v if isinstance(v, N) else num(v)
        self.top = R.st.m[(g.args[0], 'zmax')] = val('top')
        R.st.m[(g.args[0], 'zmin')] = poly_of(sym('zmin', 'num'))
        self.start, self.end, self.minz, self.steps = val('start'), val('end'), val('minz'), val('steps', 'int')
        self.out = mk('ref', mk('sym', 'target', 'obj', 'file', 'w'))
        self.obj = R.call(k, gcode=g, start_temp=self.start, end_temp=self.end, min_z_change=self.minz, steps=self.steps)
        if self.obj is None or self.obj.op != 'ref':
            c.undecided('temperature gradient', cls, 'object not built')
            return
        self.built = len(R.I.obligs)
        self.had = True
        for a, v in (before or {}).items():
            if R.st.m.get((self.obj.args[0], a)) is not NONE:
                self.had = False
            R.st.m[(self.obj.args[0], a)] = v
        if not self.had:
            return
        self.pc0 = R.st.pc
        R.method(self.obj, 'write', self.out)
        c.seen(R)
        self.ok = True

    def events(self):
        return self.R.st.m.get((WORLD, '$ev'), EMPTYSEQ)

    def raws(self):
        return [self.R.attr(x, 'raw') for x in self.lines]

    def parts(self):
        """diagram: one tuple for each layer: the pieces of text written before its lines; opaque when something else is written"""
        owns = [[self.R.attr(x, 'raw') for x in ls] for ls in self.layers]

        def split(q):
            rows = event_rows(q)
            if rows is None:
                return mk('opaque', 'writes in a loop')
            if any(kind_of(r) == 'write' and r[1] not in (self.out, STDERR) or kind_of(r) not in ('write',) for r in rows):
                return mk('opaque', 'foreign')
            text = strcat([C('')] + [r[2] for r in rows if kind_of(r) == 'write' and r[1] is self.out])
            return lift1(cut, text)

        def cut(t):
            if t.op == 'box':
                return lift1(cut, t.args[0])
            if t.op == 'cat' and any(x.op == 'box' for x in t.args[0]):
                return lift1(cut, strcat([x.args[0] if x.op == 'box' else x for x in t.args[0]]))
            ps = list(t.args[0]) if t.op == 'cat' else [] if t is C('') else [t]
            out = []
            for own in owns:
                head = []
                for k, x in enumerate(own):
                    if k == 0:
                        while ps and ps[0] is not x:
                            head.append(ps.pop(0))
                    if not ps or ps[0] is not x:
                        return mk('tup', (C('lines'), t))
                    ps.pop(0)
                    if not ps or ps[0].op != 'c' or not ps[0].args[1].startswith('\n'):
                        return mk('tup', (C('lines'), t))
                    rest = ps[0].args[1][1:]
                    ps[0:1] = [C(rest)] if rest else []
                out.append(mk('tup', tuple(head)))
            if ps:
                return mk('tup', (C('lines'), t))
            return mk('tup', tuple(out))
        return lift1(split, self.events())


def command(head):
    """the text before a layer: NONE (nothing or a blank line), ('temp', value) tuple, or opaque"""
    ps = list(head.args[0])
    if not ps or len(ps) == 1 and ps[0] is C('\n'):
        return NONE
    if ps[0].op != 'c':
        return mk('opaque', head)
    m = re.match(r'^(M10[49]) ?(T\d+ )?S', ps[0].args[1])
    if not m:
        return mk('opaque', head)
    rest = ps[0].args[1][m.end():]
    if len(ps) == 1:
        m = re.match(r'^(\d+(\.\d*)?)\s*(;[^\n]*)?\n$', rest)
        return mk('tup', (C('temp'), num(m.group(1)), C(''))) if m else mk('opaque', head)
    if rest or len(ps) != 3 or ps[2].op != 'c' or not re.match(r'^\s*(;[^\n]*)?\n$', ps[2].args[1]):
        return mk('opaque', head)
    v = ps[1]
    if v.op == 'app' and v.args[0] == 'fmt':
        return mk('tup', (C('temp'), v.args[2], v.args[1] if isinstance(v.args[1], N) else C(v.args[1])))
    if v.op == 'app' and v.args[0] in ('str', 'repr') and len(v.args) == 2:
        return mk('tup', (C('temp'), v.args[1], C('')))
    return mk('opaque', head)


def rounded(v, spec):
    """the number that is read back: rounded to the digits of the format"""
    m = re.match(r'^0?\.(\d+)f$', spec.args[1]) if spec.op == 'c' and isinstance(spec.args[1], str) else None
    if spec is C('') or spec is C('s'):
        return v
    if m:
        return round_to(v, int(m.group(1)))
    if spec is C('d'):
        return v if is_int(v) else mk('opaque', v)
    if spec is C('g'):
        return v if v.op == 'p' and is_num_const(v) else mk('opaque', v)
    return mk('opaque', v)


def round_to(v, k):
    if is_num_const(v):
        return num(round(num_val(v), k))
    x = inner(v)
    if x is not None and x[1] <= k:
        return v
    return round_(v, num(k))


def inner(v):
    """(value, digits) if v is a rounded value"""
    if v.op != 'p' or len(v.args[0]) != 1:
        return None
    ms, co = v.args[0][0]
    if co != 1 or len(ms) != 1 or ms[0][1] != 1:
        return None
    t = ms[0][0]
    if t.op == 'app' and t.args[0] == 'round' and isinstance(t.args[1], N):
        d = t.args[2] if len(t.args) > 2 else num(0)
        return (t.args[1], int(num_val(d))) if is_num_const(d) else None
    return None
