"""C09: parsing accepts any text"""
from .machine import *
from .c07 import number

EXPLANATION = ('Texts of every malformed shape a line can take - numbers of sign, point and digits in every arrangement, words without value, '
               'letters alone, commands without a number, tool changes without a number, dwells, zero feed rates, unbalanced comments, blanks - '
               'with arbitrary digits in place of the numbers are read by append and by parsing, alone and after each other. Every construct of '
               'the parser that can raise (conversion, subscript, division, attribute) is an obligation that must be unreachable, and the line '
               'kept must be the text without surrounding blanks.')
NUMS = ['', '-', '+', '.', '-.', '+.', '#', '-#', '#.', '.#', '#.#', '-#.#', '--#', '#.#.#', '..', '+-#', '#e#', 'nan', 'inf', '#,#', '0', '00', '-0', '0.0']


def text(shape, tag):
    """# stands for an arbitrary run of digits"""
    parts, k = [], 0
    for i, p in enumerate(shape.split('#')):
        if i:
            parts.append(digits('n%s.%d' % (tag, k)))
            k += 1
        if p:
            parts.append(C(p))
    return strcat(parts) if parts else C('')


def singles():
    out = ['', ' ', '\t', '\n', '\r\n', ' \n', ';', '; #', '(', ')', '()', '(#', '(#)', '(a(#)b)', '/', '*', '/*#', '*#', '#', '-', '.', 'hello #', 'echo', '?',
           ' G# X# ', '\tG#\r\n', 'g# x#', '%', ';X#', 'N', 'N#', 'n# ', 'N# ;', 'N# hello', 'N#*#', 'N# G# X#*#', 'N# N# G#', 'NG#', ' ; ', 'G#;X#', 'G# (X#) Y#',
           'G#(', '\xe9#', '\u0130#', 'M# ;', 'M117 hello X#', 'Q#', 'P#', 'S', 'K# J#', 'X#', 'X', 'X Y Z', 'E-#', 'F', 'I', 'J#', 'ZZZ', 'xyzefij', 'nt', 'gm', 'tn#']
    for l in 'GMTN':
        out += [l + n for n in NUMS]
        out += ['%s%s X#' % (l, n) for n in ('', '-', '.', '-#', '#.#')]
    for w in 'XYZEFIJ':
        out += ['G# %s%s' % (w, n) for n in NUMS]
    out += ['G# X# X#', 'G# X X#', 'G# X# X', 'G# X#Y#Z#', 'G#X#', 'G# G#', 'G# M# T#', 'G# X - #', 'G# P# S#']
    return out


def firsts9():
    return ['G4', 'G4 P', 'G4 P#', 'G4 P-#', 'G4 P.', 'G4 P-', 'G4 P-.', 'G4 S#', 'G4 P# P#', 'G04 P#', 'G4 ;P#', 'G4 (P#)', 'G1 F0', 'G1 F0 X#', 'G1 F-# X#', 'G1 F. X#',
            'G1 F# X#', 'G1 E-#', 'G1 E#', 'G1 Z-#', 'G1 Z.', 'G1 X- Y. Z+', 'G28', 'G28 X', 'G28 Q', 'G28 X# Y', 'G28 N', 'G92', 'G92 X', 'G92 X#', 'G92 E.', 'G92 E#', 'G92 Z#', 'G20', 'G21', 'G90', 'G91',
            'M82', 'M83', 'T', 'T#', 'T.', 'T-#', 'T#.#', 'T+', 'Tx', 'hello', ';', 'N#', 'G', 'G.', 'X#']


SECOND = ['G1 X#', 'G1 Z#', 'G1 X# E#', 'G1 F# E#', 'G1 F-# X#', 'G1 F-# X-#', 'G0', 'G4 P#', 'hello']
STRIP = ' \t\n\r\f\v'


def stripped(shape):
    return shape.strip()


def kept(c, R, w, what, how, ln, shape, tag, care):
    c.same('the line is kept unchanged (%s)' % how, w, R.attr(ln, 'raw'), text(stripped(shape), tag), care, detail=what)


def check(c, R, how, shapes, state=None):
    R.st = State()
    del R.I.obligs[:]
    what = ' / '.join(repr(s) for s in shapes)
    ts = [text(s, str(i)) for i, s in enumerate(shapes)]
    live = [i for i, s in enumerate(shapes) if stripped(s)]
    w = c.where(R, GC + '.' + how)
    n = len(c.obs)
    if how == 'append':
        g = make(R, state) if state else R.call(GC)
        rs = [R.method(g, 'append', t) for t in ts]
    else:
        g = R.call(GC, R.I.new_list(R.st, seq(*ts)))
        rs = None
    for g_, e, s, m in c.raises(R):
        c.never('reading a line never fails (%s)' % how, str(s), g_, '%s %s reading %s' % (e, m, what))
    if len(c.obs) > n and any(o[2] != 'ok' for o in c.obs[n:]):
        return
    if g is None:
        c.bad('reading a line never fails (%s)' % how, w, 'reading %s raises' % what)
        return
    q = R.I.content(R.st, R.attr(g, 'lines'))
    if q.op != 'seq' or any(p.op != 'e' for p in q.args[0]):
        c.undecided('the lines kept (%s)' % how, w, 'not a list of known length for %s' % what)
        return
    if len(q.args[0]) != len(live):
        c.bad('no line is lost (%s)' % how, w, '%d lines kept of %s' % (len(q.args[0]), what))
        return
    for p, i in zip(q.args[0], live):
        kept(c, R, w, what, how, p.args[0], shapes[i], str(i), TRUE)


def lines(c):
    R = c.run()
    c.need(R, GC)
    for s in singles() + firsts9():
        for how in ('append', 'prepare'):
            check(c, R, how, [s])
    c.seen(R)
    c.no_unsup(R)


def pairs(c):
    R = c.run()
    c.need(R, GC)
    for s in firsts9():
        for t in SECOND:
            check(c, R, 'prepare', [s, t])
    c.seen(R)
    c.no_unsup(R)


def any_state(c):
    """append in an arbitrary machine state"""
    R = c.run()
    c.need(R, GC)
    s = start_state()
    for t in firsts9() + ['G# X# Y# Z# E# F#', 'M#', 'T#']:
        check(c, R, 'append', [t], s)
    c.seen(R)
    c.no_unsup(R)


def empty(c):
    """no lines at all"""
    R = c.run()
    c.need(R, GC)
    w = c.where(R, GC + '.prepare')
    for what, a in (('no data', ()), ('None', (NONE,)), ('an empty list', 'list'), ('blank lines', [' ', '\n'])):
        R.st = State()
        del R.I.obligs[:]
        if a == 'list':
            a = (R.I.new_list(R.st, seq()),)
        elif isinstance(a, list):
            a = (R.I.new_list(R.st, seq(*[C(x) for x in a])),)
        g = R.call(GC, *a)
        for g_, e, s, m in c.raises(R):
            c.never('reading nothing never fails', str(s), g_, '%s %s for %s' % (e, m, what))
        c.ok('reading nothing', w)
    c.seen(R)
    c.no_unsup(R)


PARTS = [lines, pairs, any_state, empty]
