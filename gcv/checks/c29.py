"""C29: every option reaches the computation it documents"""
from .entry import *

EXPLANATION = ('The command line of every tool is interpreted symbolically: each documented option is looked up among the declared ones and its value compared '
               'with "given value of the documented type, else the documented default". At every processing step reached on any path the state of the '
               'object doing it is compared, attribute by attribute, with that of the same class built directly with the documented settings; the condition '
               'under which the step is reached is compared with the options asking for it. The stretch settings are followed through to the '
               'distances used for each kind of loop.')
T = 'gcodeutils.'
XY = T + 'filter.translate.GCodeXYTranslateFilter'
REL = T + 'filter.relative_extrusion.GCodeToRelativeExtrusionFilter'
ARC = T + 'filter.arc_optimizer.GCodeArcOptimizerFilter'
PAUSE = T + 'visit.pause_at_layer.PauseAtLayer'
STRETCH = T + 'stretch.stretch.StretchFilter'
REPO = T + 'stretch.stretch.StretchRepository'
STEP, CONT = T + 'gcode_tempcal.GCodeStepTempGradient', T + 'gcode_tempcal.GCodeContinuousTempGradient'
RATIOS = [('cross_limit_distance_over_edge_width', '5.0'), ('stretch_from_distance_over_edge_width', '2.0'), ('loop_stretch_over_edge_width', '0.11'),
          ('edge_inside_stretch_over_edge_width', '0.32'), ('edge_outside_stretch_over_edge_width', '0.1'), ('stretch_strength', '1.0')]
# tool -> [(setting, option, kind, documented default)]
OPTIONS = {
    T + 'gcode_mod': [('x', '-x', 'num', None), ('y', '-y', 'num', None), ('e', '-e', 'flag', None), ('p', '-p', 'int', None)],
    T + 'gcode_stretch': [(n, '--' + n, 'num', d) for n, d in RATIOS],
    T + 'gcode_tempcal': [('start_temp', 0, 'temp', None), ('end_temp', 1, 'temp', None), ('min_z_change', '--min_z_change', 'num', '0.1'),
                          ('continuous', '--continuous', 'class', None), ('steps', '--steps', 'int', '10')],
    T + 'gcode_optimize_arcs': [],
}
SHORT = {'--min_z_change': '-z', '--continuous': '-c', '--steps': '-s'}


def declared(R, names):
    for n, kw, site in R.I.argspecs:
        if any(x in n for x in names):
            return n, kw, site
    return None


def dest(n, kw):
    if 'dest' in kw:
        return kw['dest'].args[1]
    longs = [x for x in n if x.startswith('--')]
    return (longs[0] if longs else n[0]).lstrip('-').replace('-', '_')


def settings(c, e):
    """{setting: value} from the command line as documented; None if an option is not declared as documented"""
    R, ns = e.R, e.namespace()
    out = {}
    rule = 'options are declared as documented'
    pos = [x for x in R.I.argspecs if not x[0][0].startswith('-')]
    for name, opt, kind, default in OPTIONS[e.name]:
        if isinstance(opt, int):
            d = pos[opt] if opt < len(pos) else None
        else:
            d = declared(R, [opt])
            if d is not None and opt in SHORT:
                if SHORT[opt] not in d[0]:
                    c.bad(rule, str(d[2]), '%s: no %s' % (opt, SHORT[opt]))
        if d is None:
            c.bad(rule, e.where, '%s: no option %s' % (e.name, opt))
            continue
        k = dest(d[0], d[1])
        if k not in ns:
            c.undecided(rule, str(d[2]), 'no value for %s' % k)
            continue
        v = ns[k]
        given = lit(atom('given', 'arg:' + k))
        fill = NONE if default is None else num(default)
        if kind == 'class':
            on, off = constrain(v, given), constrain(v, bnot(given))
            out[name] = given
            out['class'] = v
            if v.op != 'ite' or on is off:
                c.bad(rule, str(d[2]), '%s has no effect on its value' % opt)
            continue
        if kind == 'flag':
            out[name] = lift1(lambda x: bnot(eq_zero(x)) if x.op == 'p' else B(x is TRUE), v)
            c.same(rule, str(d[2]), out[name], given, count_care(v), detail=opt)
            continue
        want_kind = {'int': ('int',), 'num': ('num',), 'temp': ('num', 'int')}[kind]
        val = v if isinstance(opt, int) else constrain(v, given)
        ok = val.op == 'p' and len(val.args[0]) == 1 and any(val is poly_of(sym('arg:' + k, q)) for q in want_kind)
        if not ok:
            c.bad(rule, str(d[2]), '%s: the value given is not %s' % (opt, 'a whole number' if kind == 'int' else 'a number'))
            continue
        if not isinstance(opt, int):
            c.same(rule, str(d[2]), constrain(v, bnot(given)), fill, detail='default of %s' % opt)
        out[name] = v
        c.ok(rule, str(d[2]), str(opt))
    return out


def count_care(v):
    """a counted option is given at least once when it is given"""
    care = TRUE
    for x in syms(v):
        if x.op == 'sym' and len(x.args) > 2 and x.args[2] == 'pos':
            care = band(care, lt_zero(padd(num(0), poly_of(x), -1)))
    return care


def verbosity(c, e):
    """messages told: warnings, with one more -v than -q (as without any) also information, with more also details"""
    R, ns = e.R, e.namespace()
    rule = 'the number of -v and -q given decides which messages are shown'
    level = R.st.m.get((LOGROOT, '$level'))
    n = num(1)
    for long, short, sign in (('--verbose', '-v', 1), ('--quiet', '-q', -1)):
        d = declared(R, [long])
        if d is None or short not in d[0]:
            c.bad(rule, e.where, '%s: no option %s, %s' % (e.name, short, long))
            return
        nm = 'arg:' + dest(d[0], d[1])
        n = lift2(lambda a, b: padd(a, b), n, ite(lit(atom('given', nm)), padd(num(0), poly_of(mk('sym', nm + ':count', 'int', 'pos')), sign), num(0)))
    if level is None:
        c.undecided(rule, e.where, 'no level')
        return
    more = lift1(lambda x: lt_zero(padd(num(1), x, -1)), n)
    some = lift1(lambda x: lt_zero(padd(num(0), x, -1)), n)
    care = count_care(n)
    c.same(rule, e.where, level, ite(more, num(10), ite(some, num(20), num(30))), band(R.st.pc, care), detail=e.name)


def compare(c, e, rule, where, got, gst, want, care, what, depth=0, seen=None):
    """attributes of two objects of the same class"""
    R = e.R
    seen = seen if seen is not None else set()
    if (got, want) in seen:
        return
    seen.add((got, want))
    p, q = items(R, gst, got), items(R, R.st, want)
    if p is not None and q is not None:
        if len(p) != len(q):
            c.bad(rule, where, '%s has %d items instead of %d' % (what, len(p), len(q)))
        for x, y in zip(p, q):
            compare(c, e, rule, where, x, gst, y, care, what + ' items', depth + 1, seen)
        return
    if got.op != 'ref' or want.op != 'ref':
        c.same(rule, where, got, want, care, detail=what)
        return
    if got is want:
        return
    ka, kb = R.I.class_of(got.args[0]), R.I.class_of(want.args[0])
    if str(ka) != str(kb):
        c.bad(rule, where, '%s: %s instead of %s' % (what, ka, kb))
        return
    a = {k[1]: v for k, v in gst.m.items() if len(k) == 2 and k[0] is got.args[0] and isinstance(k[1], str)}
    b = {k[1]: v for k, v in R.st.m.items() if len(k) == 2 and k[0] is want.args[0] and isinstance(k[1], str)}
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x is None or y is None:
            c.bad(rule, where, '%s: %s is %s' % (what, k, 'set only when the setting is given directly' if x is None else 'set from the command line only'))
            continue
        if x is y:
            c.ok(rule, where, '%s.%s' % (what, k))
            continue
        if depth < 3 and (x.op == y.op == 'ref' or items(R, gst, x) is not None and items(R, R.st, y) is not None):
            compare(c, e, rule, where, x, gst, y, care, '%s.%s' % (what, k), depth + 1, seen)
        elif x.op == 'seq' and y.op == 'seq' and len(x.args[0]) == len(y.args[0]) and all(p.op == 'e' for p in x.args[0] + y.args[0]):
            for p, q in zip(x.args[0], y.args[0]):
                compare(c, e, rule, where, p.args[0], gst, q.args[0], care, '%s items' % what, depth + 1, seen)
        else:
            c.same(rule, where, x, y, care, detail='%s.%s' % (what, k))


def items(R, st, v):
    if v.op == 'tup':
        return list(v.args[0])
    if v.op == 'ref' and str(R.I.class_of(v.args[0])).split(':')[0] in ('list', 'set', 'frozenset', 'tuple'):
        q = R.I.content(st, v)
        if q is not None and q.op == 'seq' and all(p.op == 'e' for p in q.args[0]):
            return [p.args[0] for p in q.args[0]]
    return None


def subclass(R, name, base):
    v, b = R.get(name), R.get(base)
    return v is not None and b is not None and v.op == 'cls' and any(x is b.args[0] for x in v.args[0].mro())


def reference(R, name, *a, **kw):
    """object of the class built with the settings"""
    k = R.get(name)
    n = len(R.I.obligs)
    r = R.call(k, *a, **kw)
    del R.I.obligs[n:]
    return r


def tools(c):
    for name in TOOLS + plugins(c):
        c.attempt(name, tool, c, name)


def tool(c, name):
    e = Entry(c, name, keep=True)
    if not e.ok:
        return
    R = e.R
    ev = e.events()
    rows = {l: steps(l) for l in leaves(ev)}
    if any(v is None for v in rows.values()):
        c.undecided('steps', e.where, '%s: steps in a loop' % name)
        return
    care = oblig_care(R, c, R.st.pc)
    if name in OPTIONS:
        verbosity(c, e)
    s = settings(c, e) if name in OPTIONS else {k: v[2] for k, v in e.params.items()}
    rule = 'the settings of a step are those asked for'
    classes = {}
    for l, rs in rows.items():
        for r in rs:
            if kind_of(r) in ('filter', 'visit', 'temp'):
                classes.setdefault((kind_of(r), r[1].args[1]), set()).add(r[2])
    # the settings of each step
    for (kind, stage), (obj, st) in sorted(e.saved.items(), key=lambda x: x[0][1]):
        if obj is None or obj.op != 'ref':
            c.undecided(rule, e.where, '%s: %s' % (name, kind))
            continue
        cls = str(R.I.class_of(obj.args[0]))
        k = expected_settings(R, e, cls, s)
        if k is None:
            c.undecided(rule, e.where, '%s: step %s is not known' % (name, cls))
            continue
        if isinstance(k, str):
            c.bad(rule, e.where, '%s: %s' % (name, k))
            continue
        base = R.st.pc
        ref = reference(R, cls, *k.pop('*', ()), **k)
        R.st.pc = base
        if ref is None or ref.op != 'ref':
            c.undecided(rule, e.where, '%s: %s cannot be built directly' % (name, cls))
            continue
        compare(c, e, rule, e.where, obj, st, ref, band(st.pc, care), '%s: %s' % (name, cls.split('.')[-1]))
    # the steps
    rule = 'a step is run exactly if it is asked for'

    def runs(base, kind):
        return lift1(lambda l: B(any(kind_of(r) == kind and subclass(R, r[1].args[1], base) for r in rows[l])), ev)

    def once(base, kind):
        return lift1(lambda l: B(sum(kind_of(r) == kind and subclass(R, r[1].args[1], base) for r in rows[l]) > 1), ev)
    want = {(XY, 'filter'): FALSE, (REL, 'filter'): FALSE, (PAUSE, 'visit'): FALSE, (STRETCH, 'filter'): FALSE, (ARC, 'filter'): FALSE, (STEP, 'temp'): FALSE,
            (CONT, 'temp'): FALSE}
    zero = FALSE
    if name == T + 'gcode_mod':
        if any(k not in s for k in 'xyep'):
            return
        want[XY, 'filter'] = lift2(lambda a, b: B(not (a is NONE and b is NONE)), s['x'], s['y'])
        # moving by nothing need not be a step
        zero = lift2(lambda a, b: band(TRUE if a is NONE else eq_zero(a), TRUE if b is NONE else eq_zero(b)), s['x'], s['y'])
        want[REL, 'filter'] = s['e']
        want[PAUSE, 'visit'] = lift1(lambda a: B(a is not NONE), s['p'])
        care = band(care, count_care(e.namespace().get('e', TRUE)))
    elif name == T + 'gcode_stretch' or 'stretch' in os.path.basename(name):
        want[REL, 'filter'] = want[STRETCH, 'filter'] = TRUE
    elif name == T + 'gcode_optimize_arcs':
        want[ARC, 'filter'] = TRUE
    elif name == T + 'gcode_tempcal':
        if 'continuous' not in s:
            return
        want[CONT, 'temp'], want[STEP, 'temp'] = s['continuous'], bnot(s['continuous'])
    elif 'tempcal' in os.path.basename(name):
        want[STEP, 'temp'] = TRUE
    else:
        return
    for (base, kind), w in sorted(want.items()):
        c.same(rule, e.where, runs(base, kind), w, band(care, bnot(zero)) if base == XY else care, detail='%s: %s' % (name, base.split('.')[-1]))
        c.never('a step is run once', e.where, band(care, once(base, kind)), '%s: %s' % (name, base.split('.')[-1]))


def expected_settings(R, e, cls, s):
    if subclass(R, cls, XY):
        return {k: s.get(k, NONE) for k in ('x', 'y')} if 'x' in s and 'y' in s else None
    if subclass(R, cls, PAUSE):
        return {'*': [R.I.new_list(R.st, seq(s['p']))]} if 'p' in s else None
    if subclass(R, cls, STRETCH):
        return {k: s[k] for k, _ in RATIOS if k in s}
    if subclass(R, cls, TEMP):
        if any(k not in s for k in ('start_temp', 'end_temp', 'min_z_change', 'steps')) or not e.refs:
            return None
        return {'gcode': e.refs[0], 'start_temp': s['start_temp'], 'end_temp': s['end_temp'], 'min_z_change': s['min_z_change'], 'steps': s['steps']}
    if subclass(R, cls, REL) or subclass(R, cls, ARC):
        return {}
    return None


def repository(c):
    """the stretch settings reach the distances of each kind of loop"""
    rule = 'stretch settings reach the distances they document'
    R = c.run()
    c.need(R, GC)
    k = R.get(T + 'stretch.stretch.Slic3rStretchFilter')
    if k is None or k.op != 'cls':
        c.undecided(rule, STRETCH, 'no such class')
        return
    w = c.where(R, REPO + '.__init__')
    for label in ('given', 'defaults'):
        R.st = State()
        del R.I.obligs[:]
        v = {n: poly_of(sym(n, 'num')) if label == 'given' else num(d) for n, d in RATIOS}
        o = R.call(k, **v) if label == 'given' else R.call(k)
        if o is None or o.op != 'ref':
            c.undecided(rule, w, 'not built')
            return
        width = poly_of(sym('width', 'num'))
        R.method(o, 'set_edge_width', width)
        strength = v['stretch_strength']
        want = {'crossLimitDistance': pmul(width, v['cross_limit_distance_over_edge_width']),
                'stretchFromDistance': pmul(width, v['stretch_from_distance_over_edge_width'])}
        at = state_attrs(R, o)
        for a, x in sorted(want.items()):
            if a not in at:
                c.undecided(rule, w, 'no %s' % a)
                continue
            c.same(rule, w, at[a], x, detail='%s, %s' % (a, label))
        base = R.st
        for name, marker in (('edge_inside_stretch_over_edge_width', 'INNER_EDGE_START_MARKER'), ('edge_outside_stretch_over_edge_width', 'OUTER_EDGE_START_MARKER'),
                             ('loop_stretch_over_edge_width', 'LOOP_START_MARKER')):
            R.st = base.copy() if hasattr(base, 'copy') else State(dict(base.m), base.pc)
            m = R.I.getattr(R.st, o, marker, None)
            if m.op != 'c':
                c.undecided(rule, w, 'no %s' % marker)
                continue
            ln = R.obj('marker', LINE)
            R.st.m[(ln.args[0], 'raw')] = C(';' + m.args[1])
            R.st.m[(ln.args[0], 'command')] = C('')
            before = dict(R.st.m)
            R.method(o, 'parse_line', ln)
            at = state_attrs(R, o)
            got = at.get('thread_maximum_absolute_stretch')
            if got is None:
                c.undecided(rule, w, 'no maximum of a loop')
                continue
            c.same(rule, w, got, pmul(width, pmul(v[name], strength)), detail='%s, %s' % (name, label))
    c.seen(R)


PARTS = [tools, repository]
