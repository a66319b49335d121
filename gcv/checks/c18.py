"""C18: preparation of a program for stretching"""
import re

from .stretch import *

EXPLANATION = ('The preparation of each stretch filter is interpreted on layers of arbitrary lines, on all paths: every line is left the same object at the same place with the same command '
               'and words, and its text is what it was followed by nothing or by text beginning a comment; the distances that depend on the edge width exist. On '
               'programs that state an edge width (with arbitrary digits) or none, at several places and for several arrangements of other lines, everything that '
               'setting an edge width sets is compared with the effect of setting the stated width, else 0.4.')
FIELDS = COORDS + ['command']
SHAPES = [(1,), (2,), (1, 1), (0, 1), (3,)]
SLIC3R, CURA, SKEIN = DIALECTS


def profile(t):
    return lambda st, args, kw, n: app('decompress', app('plain', t))


def start(c, cls):
    R = c.run()
    c.need(R, GC)
    k = R.get(cls)
    if k is None or k.op != 'cls':
        c.undecided('analysis', cls, 'no such class')
        return None
    o = R.call(k)
    f, _ = R.I.cls_attr(None, k.args[0], 'setup_filter')
    if o is None or o.op != 'ref' or f is None:
        c.undecided('analysis', cls, 'no setup_filter')
        return None
    return R, o, c.where(R, f.args[0].qual)


def prepare(R, o, layers):
    """the filter prepares the program of these layers -> layers"""
    ls = [R.obj('layer%d' % i, LAYER, **{'$seq': seq(*x)}) for i, x in enumerate(layers)]
    g = R.obj('program', GC, all_layers=R.I.new_list(R.st, seq(*ls)))
    R.st.m[(o.args[0], 'gcode')] = g
    R.method(o, 'setup_filter')
    return g, ls


def known_errors(c, R):
    """a width that is not a number, or a profile that cannot be read, is refused: not judged here"""
    care = TRUE
    for g, exc, site, msg in c.raises(R):
        care = band(care, bnot(g))
    return care


def comments(c):
    for cls in DIALECTS:
        for shape in SHAPES:
            c.attempt('%s %s' % (cls, shape), comment, c, cls, shape)


def comment(c, cls, shape):
    s = start(c, cls)
    if s is None:
        return
    R, o, w = s
    R.I.b_zlib_decompress = profile(C('layer_height=0.2\x08nozzle_size=0.35\x08x=1\x0cy=2'))
    name = '%s, layers of %s lines' % (cls.split('.')[-1], ' '.join(str(k) for k in shape))
    layers = [[new_line(R, 'l%d_%d' % (i, j)) for j in range(k)] for i, k in enumerate(shape)]
    if sum(shape) > 2:      # all but the last are comments
        for l in layers[0][:-1]:
            R.st.m[(l.args[0], 'command')] = NONE
    order = [l for x in layers for l in x]
    before = {l: snapshot(R, l, FIELDS + ['raw']) for l in order}
    unset = set(state_attrs(R, o))
    g, ls = prepare(R, o, layers)
    care = known_errors(c, R)
    for gd, exc, site, msg in c.raises(R):
        if not (exc in ('ValueError',) and 'float(' in str(msg) or 'split' in str(msg)):
            c.never('preparation ends', str(site), gd, '%s: %s %s' % (name, exc, msg))
    tops = R.I.content(R.st, R.attr(g, 'all_layers'))
    c.holds('layers stay', w, lift1(lambda q: B(q.op == 'seq' and len(q.args[0]) == len(ls) and all(p.op == 'e' and p.args[0] is l for p, l in zip(q.args[0], ls))), tops),
            care, name)
    for l, x in zip(ls, layers):
        q = R.I.content(R.st, l)
        c.holds('lines stay in place', w, lift1(lambda q: B(q.op == 'seq' and len(q.args[0]) == len(x) and all(p.op == 'e' and p.args[0] is y for p, y in zip(q.args[0], x))), q),
                care, name)
    for k, l in enumerate(order):
        for a in FIELDS:
            c.same('commands and coordinates stay', w, R.attr(l, a), before[l][a], care, detail='%s, line %d: %s' % (name, k, a))
        raw = R.attr(l, 'raw')
        for t in leaves(constrain(raw, care)):
            v = appended(t, before[l]['raw'])
            gt = band(care, lift1(lambda x: B(x is t), raw))
            if v is None:
                c.undecided('only comments are added', w, '%s, line %d: %s' % (name, k, short(t)))
            elif v is False:
                c.never('only comments are added', w, gt, '%s, line %d: %s' % (name, k, short(t)))
            else:
                c.ok('only comments are added', w, '%s, line %d' % (name, k))
    # what the edge width sets
    r = reference(R, o, num(1))
    if r is None:
        c.undecided('the edge width is set', w, 'no set_edge_width')
    else:
        for a in sorted(r):
            if a in unset:
                continue
            v = R.st.m.get((o.args[0], a), ABSENT)
            c.never('the edge width is set', w, band(care, lift1(lambda x: B(x is ABSENT or x is UNDEF or x is NONE), v)), '%s: %s' % (name, a))
    c.seen(R)
    c.no_unsup(R)


def appended(t, old):
    """is the text the old one followed by nothing or by a comment; None if not known"""
    if t is old:
        return True
    if t.op == 'c' and old.op == 'c':
        rest = t.args[1][len(old.args[1]):] if t.args[1].startswith(old.args[1]) else None
        return rest is not None and comment_text(rest)
    if t.op != 'cat' and t.op != 'c':
        return None
    ps = list(t.args[0]) if t.op == 'cat' else [t]
    os = list(old.args[0]) if old.op == 'cat' else [old]
    if len(ps) < len(os):
        return False
    for p, q in zip(ps[:len(os) - 1], os):
        if p is not q:
            return False
    p, q = ps[len(os) - 1], os[-1]
    rest = ps[len(os):]
    if p is not q:
        if not (p.op == q.op == 'c' and p.args[1].startswith(q.args[1])):
            return False
        rest = [C(p.args[1][len(q.args[1]):])] + rest
    if not rest:
        return True
    if rest[0].op != 'c':
        return False
    return comment_text(rest[0].args[1]) and all(x.op == 'c' and '\n' not in x.args[1] for x in rest[1:])


def comment_text(s):
    return s.strip(' \t').startswith(';') and '\n' not in s and '\r' not in s or s.strip(' \t') == ''


def reference(R, o, width):
    """attributes that setting the edge width of such an object sets, and their values"""
    cls = R.I.class_of(o.args[0])
    old, n = R.st, len(R.I.obligs)
    R.st = State()
    r = R.call(R.get(str(cls)))
    if r is None or r.op != 'ref':
        R.st = old
        return None
    f, _ = R.I.cls_attr(None, R.get(str(cls)).args[0], 'set_edge_width')
    if f is None:
        R.st = old
        return None
    R.method(r, 'set_edge_width', num(7))
    one = state_attrs(R, r)
    R.method(r, 'set_edge_width', width)
    two = state_attrs(R, r)
    names = {a for a in two if a not in one or one[a] is not two[a]}
    out = {a: two[a] for a in names}
    R.st = old
    del R.I.obligs[n:]
    return out


# ---------------------------------------------------------------- widths

def texts():
    d, e = digits('d'), digits('e')
    v = strcat([d, C('.'), e])
    f = num_app('float', v)
    whole = num_app('float', d)
    point = num_app('float', strcat([C('.'), e]))
    return d, e, v, f, whole, point


def slic3r_widths():
    d, e, v, f, whole, point = texts()
    t = '; external perimeters extrusion width = '
    return [('d.d', strcat([C(t), v, C('mm')]), f), ('d.d and more', strcat([C(t), v, C('mm (2.33mm^3/s)')]), f), ('d', strcat([C(t), d, C('mm')]), whole),
            ('.d', strcat([C(t), C('.'), e, C('mm')]), point), ('spaced', strcat([C(t.replace(' =', '   =')), v, C('mm')]), f)]


def skein_widths():
    d, e, v, f, whole, point = texts()
    t = '(<edgeWidth> '
    return [('d.d', strcat([C(t), v, C(' </edgeWidth>)')]), f), ('d', strcat([C(t), d, C(' </edgeWidth>)')]), whole), ('.d', strcat([C(t), C('.'), e, C(' )')]), point)]


def cura_profiles():
    d, e, v, f, whole, point = texts()
    return [('first', strcat([C('nozzle_size='), v, C('\x08layer_height=0.2\x08x=1\x0cmachine=1')]), f), ('second', strcat([C('layer_height=0.2\x08nozzle_size='), v, C('\x08x=1\x0cm=1')]), f),
            ('last', strcat([C('layer_height=0.2\x08empty=\x08nozzle_size='), v, C('\x0cm=1')]), f), ('only', strcat([C('nozzle_size='), d, C('\x0c')]), whole),
            ('absent', C('layer_height=0.2\x08wall=0.8\x0cm=1'), None), ('in the second part', C('layer_height=0.2\x0cnozzle_size=0.9'), None),
            ('empty', C('\x0cm=1'), None), ('empty items', strcat([C('a=1\x08\x08nozzle_size='), v, C('\x0c')]), f),
            ('value with =', strcat([C('a=b=c\x08nozzle_size='), v, C('\x0c')]), f), ('after other sizes', strcat([C('nozzle_size_2=0.8\x08old_nozzle_size=0.7\x08nozzle_size='), v, C('\x0c')]), f)]


OTHERS = {
    SLIC3R: ['; generated by Slic3r', 'G21 ; set units', 'G1 X1 Y2 E3 ; perimeter', 'G1 X2 Y3 E1 ; perimeter external', 'G1 X5 Y5 F1000 ; move to first perimeter point', 'M104 S200',
             '; perimeters extrusion width = 0.77mm', '; infill extrusion width = 0.66mm'],
    CURA: [';TYPE:WALL-OUTER', 'G1 X1 Y2 E3', ';TYPE:WALL-INNER', 'G0 X1 Y1', ';TYPE:SKIN', ';TYPE:FILL', ';LAYER:0', 'M84'],
    SKEIN: ['(<loop> outer )', 'M101', 'G1 X1 Y1', '(<edge> outer )', '(<edge> inner )', 'M103', '(</edge>)', '(<decimalPlacesCarried> 5 )', '(<layerHeight> 0.3 </layerHeight>)'],
}


def line_of(R, name, text):
    """a line with this text, read by the parser"""
    ln = R.obj(name, LINE)
    t = C(text) if isinstance(text, str) else text
    kw = {'raw': t, 'command': NONE}
    for a in COORDS:
        kw[a] = NONE
    if isinstance(text, str):
        m = re.match(r'([GM]\d+)((?: [A-Z][0-9.]+)*)', text)
        if m:
            kw['command'] = C(m.group(1))
            for x in m.group(2).split():
                if m.group(1)[0] == 'G' and x[0].lower() in kw:
                    kw[x[0].lower()] = num(x[1:])
    for k, v in kw.items():
        R.st.m[(ln.args[0], k)] = v
    return ln


def widths(c):
    for cls, stated in ((SLIC3R, slic3r_widths()), (SKEIN, skein_widths()), (CURA, cura_profiles())):
        c.attempt(cls, stated_widths, c, cls, stated)


def stated_widths(c, cls, stated):
    others = OTHERS[cls]
    rows = [('none stated', None, None, None)]
    for label, t, v in stated:
        raw = t
        plain = None
        if cls == CURA:
            raw, plain = C(';CURA_PROFILE_STRING:eJxLSSwBAAPsAUs='), t
        rows.append((label, raw, plain, v))
    for label, raw, plain, v in rows:
        for k, place in enumerate(('first', 'middle', 'last', 'second layer', 'alone', 'end of first layer')):
            if raw is None and place != 'middle' or place in ('middle', 'alone') and k > 6:
                continue
            s = start(c, cls)
            if s is None:
                return
            R, o, w = s
            if plain is not None:
                R.I.b_zlib_decompress = profile(plain)
            mid = [line_of(R, 'o%d' % i, t) for i, t in enumerate(others)]
            st = [line_of(R, 'width', raw)] if raw is not None else []
            lay = {'first': [st + mid, []], 'middle': [mid[:3] + st + mid[3:]], 'last': [mid + st], 'second layer': [mid[:4], mid[4:6] + st + mid[6:]], 'alone': [st],
                   'end of first layer': [mid[:3] + st, mid[3:]]}[place]
            compare(c, R, o, w, lay, v if v is not None else num('0.4'), '%s: %s, %s' % (cls.split('.')[-1], label, place))
            c.seen(R)
    # the width of an earlier program is not kept
    s = start(c, cls)
    if s is None:
        return
    R, o, w = s
    label, raw, plain, v = rows[1]
    if plain is not None:
        R.I.b_zlib_decompress = profile(plain)
    prepare(R, o, [[line_of(R, 'width', raw)]])
    compare(c, R, o, w, [[line_of(R, 'o%d' % i, t) for i, t in enumerate(others)]], num('0.4'), '%s: none stated, after a program with %s' % (cls.split('.')[-1], label))


def compare(c, R, o, w, layers, want, what):
    rule = 'the edge width is the one stated, else 0.4'
    prepare(R, o, layers)
    care = known_errors(c, R)
    if care is FALSE:
        for g, exc, site, msg in c.raises(R):
            c.never(rule, str(site), g, '%s: %s %s' % (what, exc, msg))
        return
    got = state_attrs(R, o)
    ref = reference(R, o, want)
    if ref is None:
        c.undecided(rule, w, 'no set_edge_width')
        return
    for a in sorted(ref):
        if a not in got:
            c.bad(rule, w, '%s: %s is not set' % (what, a))
        else:
            c.same(rule, w, got[a], ref[a], care, detail='%s: %s' % (what, a))


PARTS = [comments, widths]
