"""C04: machine position"""
from .machine import *

EXPLANATION = ('From an arbitrary machine state (symbolic position, shifts, modes, home position) one line of text with arbitrary command number '
               'and arbitrary numbers is read, by append and by parsing, and then a second one; the state and the position recorded with the '
               'line are compared, as decision diagrams over rational functions, with the reference machine. The step from an arbitrary state '
               'is an induction over the program.')
KEYS = ['imperial', 'relative', 'current_tool', 'current_f', 'current_x', 'current_y', 'current_z', 'offset_x', 'offset_y', 'offset_z']
LABEL = {'imperial': 'units', 'relative': 'positioning mode', 'current_tool': 'tool', 'current_f': 'feed rate',
         'current_x': 'X position', 'current_y': 'Y position', 'current_z': 'Z position', 'offset_x': 'X shift', 'offset_y': 'Y shift',
         'offset_z': 'Z shift', 'relative_e': 'extrusion mode', 'total_e': 'total extrusion', 'max_e': 'filament length',
         'logical_e': 'logical E position'}


def check_lines(c, R, how, s, ts, keys, w, rec_fn):
    R.st = State()
    del R.I.obligs[:]
    g = make(R, s)
    what = '; then '.join(t.name for t in ts)
    lns = feed(R, g, how, ts)
    if lns is None or any(l is None or any(x.op != 'ref' for x in leaves(l)) for l in lns):
        c.bad('the line is read (%s)' % how, w, '%s: no line' % what)
        return
    care = oblig_care(R, c, bnot(lt_zero(padd(s['max_e'], s['total_e'], -1))))
    cur = s
    for t, ln in zip(ts, lns):
        cur, rec = step(cur, t)
        rec_fn(c, R, how, t, ln, rec, care, w, what)
    got = final(R, g)
    for k in keys:
        c.same('%s after the line (%s)' % (LABEL[k], how), w, got[k], cur[k], care, detail=what)


def record(c, R, how, t, ln, rec, care, w, what):
    if t.letter:
        for a in AX:
            c.same('position recorded with the line (%s)' % how, w, R.attr(ln, 'current_' + a), rec[a], care, detail='%s: %s' % (what, a.upper()))


def run(c, keys, rec_fn):
    R = c.run()
    c.need(R, GC)
    for how in ('append', 'prepare'):
        w = c.where(R, GC + '.' + how)
        for t in texts():
            c.attempt(t.name, check_lines, c, R, how, start_state(), [t], keys, w, rec_fn)
        if how == 'prepare':
            for t in firsts():
                for u in texts('2', True):
                    c.attempt(t.name + '; then ' + u.name, check_lines, c, R, how, start_state(), [t, u], keys, w, rec_fn, secs=60)
    c.seen(R)
    c.no_unsup(R)


def step_rule(c):
    run(c, KEYS, record)


PARTS = [step_rule]
