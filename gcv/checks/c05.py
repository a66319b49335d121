"""C05: extrusion accounting"""
from .c04 import *

EXPLANATION = ('From an arbitrary machine state one line of text with arbitrary command number and arbitrary numbers is read, by append and by '
               'parsing (and pairs of lines), and the extrusion totals, the mode, the logical E position and the extruding flag of the line are '
               'compared, as decision diagrams over rational functions, with the reference machine. The step from an arbitrary state is an '
               'induction over the program.')
KEYS5 = ['relative_e', 'total_e', 'max_e', 'logical_e']


def record5(c, R, how, t, ln, rec, care, w, what):
    if t.letter:
        adv = lift1(lambda l: FALSE if l is NONE else lt_zero(neg(l)), rec['advance'])
        c.same('extruding exactly when the advance is positive (%s)' % how, w, R.I.truth(R.st, R.attr(ln, 'extruding')), adv, care, detail=what)
        # the shift of the E position is always 0: what is set is the position itself
        c.same('the E position recorded with the line (%s)' % how, w, R.attr(ln, 'current_e'), rec['logical_e'], band(care, eq_zero(poly_of(sym('s.offset_e', 'num')))), detail=what)


def step_rule(c):
    from . import c04
    c04.run(c, KEYS5, record5)


def filament(c):
    """the filament length reported after parsing is the largest total"""
    R = c.run()
    c.need(R, GC)
    w = c.where(R, GC + '.prepare')
    for ts in ([Text('G1 E', 'G', 'E', num_='1')], [Text('M83', 'M', num_='83'), Text('G1 E', 'G', 'E', num_='1'), Text('G1 E', 'G', 'E', num_='1', tag='2')],
               [Text('G1 E', 'G', 'E', num_='1'), Text('G92 E', 'G', 'E', num_='92', tag='2'), Text('G1 E', 'G', 'E', num_='1', tag='3')],
               [Text('G1 X', 'G', 'X', num_='1')]):
        R.st = State()
        del R.I.obligs[:]
        g = R.call(GC, R.I.new_list(R.st, seq(*[t.text for t in ts])))
        s = concrete_start()
        for t in ts:
            s, rec = step(s, t)
        c.same('filament length is the largest total', w, R.attr(g, 'filament_length'), s['max_e'], oblig_care(R, c, TRUE),
               detail='; '.join(t.name for t in ts))
    c.seen(R)


PARTS = [step_rule, filament]
