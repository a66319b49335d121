"""shared pieces of the checks"""
from ..report import *
from ..drive import SCHEMA
from .c08 import expected, same_text, WORDS, LINE

GC = 'gcodeutils.gcoder.GCode'
LAYER = 'gcodeutils.gcoder.Layer'
MOVES = ('G0', 'G1', 'G2', 'G3')
COORDS = [w for w, f in WORDS]


def isin(v, consts):
    """diagram: string value equal to one of the constants (None is not)"""
    return lift1(lambda l: FALSE if l is NONE else bor(*[str_test('streq', l, k) for k in consts]), v)


def is_none_d(v):
    return lift1(is_none, v)


def new_line(R, name, **kw):
    """a line as the parser leaves it: a command or a pure comment, coordinates present or absent"""
    return R.obj(name, LINE, **kw)


def snapshot(R, ln, attrs):
    return {a: R.attr(ln, a) for a in attrs}


def answers(R, res, line):
    """the lines a line rule leaves in place of a line: diagram of tuples of line values"""
    st = R.st

    def one(l):
        if l is NONE:
            return mk('tup', (line,))
        if l.op == 'ref':
            if R.I.is_listlike(l):
                def lst(q):
                    out = []
                    for p in q.args[0]:
                        if p.op != 'e':
                            return mk('opaque', q)
                        out.append(p.args[0])
                    return mk('tup', tuple(out))
                return lift1(lst, R.I.content(st, l))
            return mk('tup', (l,))
        if l.op == 'tup':
            return l
        return mk('opaque', l)
    return lift1(one, constrain(res, st.pc))


def oblig_care(R, c, care):
    """care set without the regions where an uncaught exception ends the run"""
    for g, e, s, m in c.raises(R):
        care = band(care, bnot(g))
    return care


def state_attrs(R, o):
    """{name: value} of the attributes held by an object"""
    t = o.args[0]
    return {k[1]: v for k, v in R.st.m.items() if len(k) == 2 and k[0] is t and isinstance(k[1], str) and not k[1].startswith('$')}


def value_kind(v):
    ls = leaves(v)
    ks = set()
    for l in ls:
        if l is TRUE or l is FALSE:
            ks.add('bool')
        elif l.op == 'p':
            ks.add('num')
        elif l is NONE:
            ks.add('none')
        else:
            ks.add(l.op)
    return ks
