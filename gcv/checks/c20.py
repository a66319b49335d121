"""C20: stretching needs relative extrusion"""
from .entry import *

EXPLANATION = ('Every shipped tool and plugin is interpreted from its command line to its end with parsing, filtering and saving recorded. On every '
               'path the order of the recorded steps is checked: a stretch is preceded by the conversion of the same program to relative '
               'extrusion, is the only one, and comes before the program is written. The choice of the dialect is compared, as a condition '
               'on the text of the lines, with "some line holds a Cura profile".')
STRETCH = 'gcodeutils.stretch.stretch.StretchFilter'
CURA = 'gcodeutils.stretch.stretch.CuraStretchFilter'
REL = 'gcodeutils.filter.relative_extrusion.GCodeToRelativeExtrusionFilter'
PROFILE = 'CURA_PROFILE_STRING'


def subclass(R, name, base):
    v, b = R.get(name), R.get(base)
    return v is not None and b is not None and v.op == 'cls' and any(x is b.args[0] for x in v.args[0].mro())


def verdict(R, q, cura):
    """text of what is wrong on this path, None if nothing"""
    rows = steps(q)
    if rows is None:
        return 'steps not known'
    rel = {}
    stretched = None
    for k, r in enumerate(rows):
        kd = kind_of(r)
        if kd == 'filter':
            name = r[1].args[1]
            if subclass(R, name, REL):
                rel[r[3]] = k
            elif subclass(R, name, STRETCH):
                if r[3] not in rel:
                    return 'stretches a program that is not converted to relative extrusion'
                if stretched is not None:
                    return 'stretches twice'
                stretched = (name, r[3])
                if any(kind_of(x) == 'write' and x[1] is not STDERR for x in rows[:k]):
                    return 'writes before stretching'
    return stretched


def order(c):
    found = 0
    for name in TOOLS + plugins(c):
        for shape in ((1,), (2,), (1, 1), (0, 1), None):
            e = Entry(c, name, shape=shape, keep=True)
            if not e.ok:
                continue
            R = e.R
            ev = e.events()
            res = {l: verdict(R, l, None) for l in leaves(ev)}
            if not any(isinstance(v, (tuple, str)) for v in res.values()):
                continue
            found += 1
            if 'steps not known' in res.values():
                c.undecided('order of the steps', e.where, name)
                continue
            care = oblig_care(R, c, R.st.pc)
            for v in sorted({v for v in res.values() if isinstance(v, str)}):
                g = lift1(lambda l: B(res[l] == v), ev)
                c.never('converted first, stretched once, then written', e.where, band(care, g), '%s %s' % (name, v))
            if all(isinstance(v, (tuple, str)) for v in res.values()) and not any(isinstance(v, str) for v in res.values()):
                c.ok('converted first, stretched once, then written', e.where)
            none = lift1(lambda l: B(res[l] is None), ev)
            c.never('every path stretches', e.where, band(care, none), name + ' writes the program without stretching it')
            other = lift1(lambda l: B(isinstance(res[l], tuple) and res[l][1] is not e.refs[0]), ev)
            c.never('the program read is the one stretched', e.where, band(care, other), name)
            is_cura = lift1(lambda l: B(isinstance(res[l], tuple) and subclass(R, res[l][0], CURA)), ev)
            want = TRUE
            if name in TOOLS and shape is None:
                ls = R.I.content(R.st, R.attr(e.refs[0], 'all_layers'))
                n = seq_len(ls)
                i = idx_sym(n, 0)
                lines = R.I.content(R.st, R.I.part_elem(ls.args[0][0], poly_of(i)))
                m = seq_len(lines)
                j = idx_sym(m, 1)
                raw = R.attr(R.I.part_elem(lines.args[0][0], poly_of(j)), 'raw')
                want = any_(n, i, any_(m, j, lift1(lambda t: str_test('in', t, PROFILE), raw)))
            elif name in TOOLS:
                raws = [R.attr(x, 'raw') for x in e.lines]
                want = bor(*[lift1(lambda t: str_test('in', t, PROFILE), x) for x in raws]) if raws else FALSE
            c.same("Cura's dialect exactly for programs with a Cura profile", e.where, is_cura, want, care, detail='%s, %s' % (name, 'any program' if shape is None else 'layers of %s lines' % list(shape)))
    if not found:
        c.undecided('entry point', 'entry points', 'nothing stretches')


PARTS = [order]
