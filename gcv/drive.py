"""Drivers: symbolic objects of the package and calls of its functions."""
from .alg import *
from . import alg
from .state import *
from .interp import Interp, WORLD, Site
from .ex import Flow, Raise

NUMQ = 'num?'
LINE = {'x': NUMQ, 'y': NUMQ, 'z': NUMQ, 'e': NUMQ, 'f': NUMQ, 'i': NUMQ, 'j': NUMQ,
        'raw': 'str', 'command': 'str?', 'is_move': 'bool', 'relative': 'bool', 'relative_e': 'bool',
        'current_x': 'num', 'current_y': 'num', 'current_z': 'num', 'current_f': 'num', 'current_e': 'num',
        'extruding': 'bool', 'current_tool': 'int', 'gcview_end_vertex': 'any'}
G = 'gcodeutils.gcoder.'
SCHEMA = {
    G + 'PyLine': LINE,
    G + 'Layer': {'z': NUMQ, 'duration': 'num', '$elem': 'obj:' + G + 'PyLine'},
    G + 'GCode': {'lines': 'list:obj:' + G + 'PyLine', 'all_layers': 'list:obj:' + G + 'Layer',
                  'layer_idxs': 'list:int', 'line_idxs': 'list:int', 'all_zs': 'list:num?',
                  'append_layer': 'obj:' + G + 'Layer', 'append_layer_id': 'int',
                  'imperial': 'bool', 'relative': 'bool', 'relative_e': 'bool', 'current_tool': 'int',
                  'home_x': 'num', 'home_y': 'num', 'home_z': 'num', 'current_x': 'num', 'current_y': 'num',
                  'current_z': 'num', 'current_e': 'num', 'total_e': 'num', 'max_e': 'num', 'current_f': 'num',
                  'offset_x': 'num', 'offset_y': 'num', 'offset_z': 'num', 'offset_e': 'num',
                  'filament_length': NUMQ, 'duration': 'any', 'xmin': NUMQ, 'xmax': NUMQ, 'ymin': NUMQ, 'ymax': NUMQ,
                  'zmin': NUMQ, 'zmax': NUMQ, 'width': NUMQ, 'depth': NUMQ, 'height': NUMQ, 'est_layer_height': NUMQ},
}


class Run(object):
    """one analysis of the working tree"""

    def __init__(self, root='/repo', schema=None):
        s = dict(SCHEMA)
        s.update(schema or {})
        self.I = Interp(root, s)
        self.st = State()

    def mod(self, name):
        return self.I.load(name)

    def get(self, qual):
        """value of a dotted name: module.attr[.attr]"""
        parts = qual.split('.')
        for i in range(len(parts) - 1, 0, -1):
            m = self.I.load('.'.join(parts[:i]))
            if m is None:
                continue
            v = self.I.static.get((m.term, parts[i]))
            for p in parts[i + 1:]:
                if v is None or v.op != 'cls':
                    return None
                v, _ = self.I.cls_attr(None, v.args[0], p)
            return v
        return None

    def obj(self, name, cls, **kw):
        """symbolic instance of a class (attributes by schema)"""
        t = mk('sym', name, 'obj', cls)
        for k, v in kw.items():
            self.st.m[(t, k)] = v
        return mk('ref', t)

    def call(self, f, *args, **kw):
        """call in self.st; returns the value or None when every path raises"""
        if isinstance(f, str):
            f = self.get(f)
        import ast
        n = ast.Pass()
        n.lineno = 0
        st = self.st
        try:
            v = self.I.call(st, f, list(args), kw, n)
        except Raise:
            return None
        return v

    def method(self, o, name, *args, **kw):
        import ast
        n = ast.Pass()
        n.lineno = 0
        f = self.I.getattr(self.st, o, name, n)
        return self.call(f, *args, **kw)

    def attr(self, o, name):
        import ast
        n = ast.Pass()
        n.lineno = 0
        return self.I.getattr(self.st, o, name, n)


def pretty(v, d=0):
    pad = '  ' * d
    if v.op == 'ite':
        return '%sif %s:\n%s\n%selse:\n%s' % (pad, v.args[0], pretty(v.args[1], d + 1), pad, pretty(v.args[2], d + 1))
    return pad + repr(v)
