"""C24: no line is lost by the conversion to arcs but for the straight moves an arc stands for"""
from .arc import *
from .c26 import exact

EXPLANATION = ('The arc optimizer is interpreted on sequences of arbitrary lines (moves of all kinds, comments, other commands) from a fresh filter: at every '
               'step what has come out so far is the lines given so far, in order, but for the ones held back, up to runs replaced by one arc and at most one '
               'position setting; on whole programs of several layers, twice with one filter, nothing is held back at the end. With the criteria replaced by '
               'an arbitrary verdict the same is shown for one step from a queue of many lengths.')
RULE = 'the lines come out in their order, but for replaced runs'
BAD = C('bad')
GONE = C('gone')


def emit(a, pending, out, cur=None):
    """lines not yet out once out has come out; BAD if out are not the next ones; an arc stands for lines before the current one"""
    todo, done = list(pending), []
    out = list(out)
    k = 0
    while k < len(out):
        x = out[k]
        if not a.made(x):
            if not todo or todo.pop(0) is not x:
                return mk('opaque', BAD)
            k += 1
            continue
        new = []
        while k < len(out) and a.made(out[k]):
            new.append(out[k])
            k += 1
        if len(new) > 2 or k < len(out) and out[k] not in todo:
            return mk('opaque', BAD)
        stop = cur if cur is not None else out[k] if k < len(out) else None
        if stop not in todo:
            return mk('opaque', BAD)
        gone = todo[:todo.index(stop)]
        if not gone:
            return mk('opaque', BAD)
        done.append(mk('tup', (mk('tup', tuple(gone)), mk('tup', tuple(new)))))
        todo = todo[len(gone):]
    return mk('tup', tuple(todo)) if not done else mk('opaque', GONE, mk('tup', tuple(todo)), mk('tup', tuple(done)))


class Flow(object):
    """follows what comes out for what goes in"""

    def __init__(self, c, a, name):
        self.c, self.a, self.name = c, a, name
        self.pending = mk('tup', ())
        a.replaced = []
        a.given = set()
        self.before = {}

    def give(self, l):
        self.a.given.add(l)
        R = self.a.R
        self.before[l] = {n: R.attr(l, n) for n in KEEP}
        self.pending = lift1(lambda t: mk('tup', t.args[0] + (l,)) if t.op == 'tup' else t, self.pending)

    def got(self, ans, at, cur=None):
        """ans: diagram of tuples of lines"""
        c, a = self.c, self.a
        if ans is None:
            c.undecided(RULE, a.where, '%s: no answer' % at)
            return False

        def flat(t):
            if t.op != 'tup':
                return t
            return liftn(lambda *xs: mk('tup', tuple(xs)), list(t.args[0])) if t.args[0] else t
        ans = lift1(flat, ans)
        self.pending = constrain(lift2(lambda p, t: p if p.op != 'tup' else mk('opaque', t) if t.op != 'tup' else emit(a, p.args[0], t.args[0], cur),
                                       self.pending, ans), a.R.st.pc)
        for x in sorted(leaves(self.pending), key=lambda x: x.id):
            if x.op == 'opaque' and x.args[0] is GONE:
                g = lift1(lambda y: B(y is x), self.pending)
                for d in x.args[2].args[0]:
                    a.replaced.append((g, d.args[0][0].args[0], d.args[0][1].args[0]))
        self.pending = lift1(lambda x: x.args[1] if x.op == 'opaque' and x.args[0] is GONE else x, self.pending)
        bad = lift1(lambda x: B(x.op != 'tup'), self.pending)
        self.check(bad, at)
        self.pending = lift1(lambda x: x if x.op == 'tup' else mk('tup', ()), constrain(self.pending, bnot(bad)) if bad is not TRUE else mk('tup', ()))
        return True

    def check(self, bad, at):
        """bad must not happen: never, or not on any sample"""
        c, a = self.c, self.a
        bad = band(a.R.st.pc, bad)
        if bad is FALSE or not self.real(bad):
            c.ok(RULE, a.where, '%s: %s' % (self.name, at))
            return
        sure = any(all(simple(t) for t, v in ls) and feasible(ls, ()) for ls, l in paths(bad, lambda l: l is TRUE, 400))
        what = [x for x in leaves(self.pending) if x.op != 'tup'][:1]
        what = what[0].args if what else ()
        if sure or any(true(bad, e) for e in samples(a, a.size)):
            text = '; for instance when ' + ' and '.join(('' if v else 'not ') + show_atom(t)[:60] for t, v in next(iter([ls for ls, l in paths(bad, lambda l: l is TRUE, 1)]))[:6])
            c.bad(RULE, a.where, '%s: %s%s' % (self.name, at, text))
        else:
            c.undecided(RULE, a.where, '%s: %s: %s' % (self.name, at, ', '.join(str(x)[:80] for x in what)))

    def real(self, g):
        return any(feasible(ls, ()) for ls, l in paths(g, lambda l: l is TRUE, 200))

    def arcs(self):
        """the lines that are gone are straight moves, the new ones an arc and a position setting"""
        c, a = self.c, self.a
        R = a.R
        rule = 'one arc and at most one position setting'
        for g, gone, new in a.replaced:
            cmds = [R.attr(x, 'command') for x in new]
            bad = band(g, bor(*[bnot(isin(v, ('G2', 'G3') if i == 0 else ('G92',))) for i, v in enumerate(cmds)]))
            self.breach(rule, bad, [show(v)[:40] for v in cmds])
            if self.step:
                continue
            for x in gone:
                self.breach('only straight moves are replaced', band(g, bnot(isin(R.attr(x, 'command'), ('G0', 'G1')))), a.lines.index(x))

    step = False

    def breach(self, rule, bad, what):
        c, a = self.c, self.a
        if bad is FALSE:
            c.ok(rule, a.where, self.name)
        elif any(true(bad, e) for e in samples(a, a.size)) or self.step and self.real(bad):
            c.bad(rule, a.where, '%s: %s' % (self.name, what))
        elif not self.real(bad):
            c.ok(rule, a.where, self.name)
        else:
            c.undecided(rule, a.where, '%s: %s' % (self.name, what))

    def kept(self):
        """the lines themselves stay as they are"""
        c, a = self.c, self.a
        for l, old in self.before.items():
            for n, v in old.items():
                c.same('the lines stay as they are', a.where, a.R.attr(l, n), v, care=a.R.st.pc, detail='%s: %s' % (self.name, n))

    def held(self):
        """nothing is held back"""
        g = lift1(lambda x: B(x is not mk('tup', ())), self.pending)
        self.check(g, 'all lines have come out')


KEEP = ('raw', 'command', 'x', 'y', 'z', 'e', 'f', 'i', 'j')


def simple(t):
    """is the comparison exactly understood?"""
    if t.kind not in ('lt0', 'eq0'):
        return True
    return all(len(m) <= 1 and all(n.op == 'sym' and w == 1 for n, w in m) for m, k in t.args[0].args[0])


def samples(a, n, last=()):
    """exact arcs, ended in several ways"""
    if a.ready == (n, len(a.centres)):
        return a.samples
    a.ready = (n, len(a.centres))
    out = a.samples = []
    for kind, env, st in exact(a, n) if n > MIN else ():
        out.append(env)
        if kind in ('plain', 'travel'):
            for i in (0, 1, n // 2, n - 2):
                for cmd in ('G2', 'G3', 'M1'):
                    e = dict(env)
                    e[sym('cmd%d' % i, 'str')] = cmd
                    e[sym('cmd%d' % (n - 1), 'str')] = 'M1'
                    out.append(e)
            for cmd in ('M1', None, 'G2', 'G28'):
                for i in (n - 1, 0):
                    e = dict(env)
                    e[sym('cmd%d' % i, 'str')] = cmd
                    out.append(e)
    return out


def true(g, env):
    try:
        return bool(Values(env).of(g))
    except NoValue:
        return False


def any_line(a, i, comment=True, **kw):
    """a move as far as its place goes, with any command or none"""
    if not comment:
        kw.setdefault('command', typed(sym('cmd%d' % i, 'str'), 'str?'))
    return a.move(i, **dict({'command': nullable(sym('cmd%d' % i, 'str'), 'str')}, **kw))


def runs(c):
    """lines one after the other; the last may be anything"""
    for n, rel_e, wide in ((5, FALSE, True), (9, TRUE, True), (9, FALSE, True), (10, TRUE, False)):
        c.attempt('%d lines' % n, one, c, n, rel_e, wide, secs=300)
    for j in range(11):
        c.attempt('a comment', one, c, 10, TRUE, False, j, secs=100)


def one(c, n, rel_e, wide, comment=None):
    a = Arcs(c, rel_e=rel_e)
    if not a.ok:
        return
    kw = lambda i: dict(current_z=poly_of(N_('z%d' % i)), current_f=poly_of(N_('f%d' % i))) if wide else {}
    note = dict({w: NONE for w in 'xyef'}, command=NONE)
    ls = [a.move(i, **note) if i == comment else any_line(a, i, comment=n < 9, **kw(i)) if wide or i == 9 and comment is None else a.move(i) for i in range(n)]
    last = a.move(n, **note) if n == comment else any_line(a, n, comment=n < 9, **kw(n)) if wide else a.move(n, command=C('M1'))
    a.steps(n + 1)
    a.R.st.pc = a.facts
    a.size = n + 1
    f = Flow(c, a, '%d lines, %s extrusion%s' % (n + 1, 'relative' if rel_e is TRUE else 'absolute', '' if comment is None else ', line %d a comment' % (comment + 1)))
    for i, l in enumerate(ls + [last]):
        f.give(l)
        if not f.got(a.feed(l), 'line %d' % (i + 1), l):
            return
    f.arcs()
    f.kept()
    fails(c, a, f.name)
    c.seen(a.R)
    c.no_unsup(a.R)


def fails(c, a, name):
    """the converter must not fail on the way"""
    for g, e, s, m in c.raises(a.R):
        if any(true(g, env) for env in samples(a, a.size)):
            c.bad('no failure', str(s), '%s: %s' % (name, e))


def gcode(a, lines, shape, name):
    R = a.R
    layers, k = [], 0
    for j, n in enumerate(shape):
        layers.append(R.obj('%s.layer%d' % (name, j), LAYER, **{'$seq': seq(*lines[k:k + n])}))
        k += n
    lst = R.obj('%s.layers' % name, 'list', **{'$seq': seq(*layers)})
    return R.obj(name, GC, all_layers=lst), layers


def content(a, layers):
    R = a.R

    def tup(q):
        if q.op != 'seq' or any(p.op != 'e' for p in q.args[0]):
            return mk('opaque', q)
        return liftn(lambda *xs: mk('tup', tuple(xs)), [p.args[0] for p in q.args[0]]) if q.args[0] else mk('tup', ())
    parts = []
    for l in layers:
        parts.append(lift1(lambda x: lift1(tup, R.I.content(R.st, x)) if x.op == 'ref' else mk('opaque', x), l))
    return constrain(liftn(lambda *ts: mk('tup', sum((t.args[0] for t in ts), ())) if all(t.op == 'tup' for t in ts) else mk('opaque', C('content')), parts), R.st.pc)


def programs(c):
    """whole programs of several layers, then another one with the same filter"""
    for shapes, wide in (([(3,)], True), ([(0, 2, 1)], True), ([(2, 0)], True), ([(2,), (2, 1)], True), ([(9,)], False), ([(9,), (2,)], False), ([(4, 6), (1,)], False)):
        c.attempt('layers %s' % (shapes,), whole, c, shapes, wide, secs=300)


def whole(c, shapes, wide):
    a = Arcs(c, rel_e=TRUE)
    if not a.ok:
        return
    R = a.R
    n = sum(sum(s) for s in shapes)
    ls = [any_line(a, i) if wide else a.move(i) for i in range(n)]
    a.steps(n)
    R.st.pc = a.facts
    a.size = n
    k = 0
    for p, shape in enumerate(shapes):
        f = Flow(c, a, 'layers of %s lines%s' % (', '.join(map(str, shape)), ', after another program' if p else ''))
        g, layers = gcode(a, ls[k:k + sum(shape)], shape, 'g%d' % p)
        for l in ls[k:k + sum(shape)]:
            f.give(l)
        k += sum(shape)
        R.method(a.obj, 'filter', g)
        f.got(content(a, layers), 'the program')
        f.held()
        f.arcs()
        f.kept()
    fails(c, a, f.name)
    c.seen(R)
    c.no_unsup(R)


LENGTHS = (0, 1, 2, 7, 8, 9, 10, 11, 12, 20, 40, 130, 300)


def step(c):
    """one step from a queue of a given length, with an arbitrary verdict on the criteria"""
    for n in LENGTHS:
        for valid in (FALSE, TRUE):
            if valid is TRUE and n <= MIN:
                continue
            c.attempt('a queue of %d' % n, from_queue, c, n, valid, secs=200)


def from_queue(c, n, valid):
    a = Arcs(c, rel_e=TRUE)
    if not a.ok:
        return
    R = a.R
    if not a.known():
        c.undecided('a step from a long queue', a.where, 'the names of the criteria or the queue are not the known ones')
        return
    N = lambda x: poly_of(N_(x))
    kinds = {} if valid is TRUE else {'command': True}
    ls = []
    for i in range(n):
        l = R.obj('q%d' % i, LINE, command=C('G1') if valid is TRUE and i else nullable(sym('qcmd%d' % i, 'str'), 'str'), e=NONE, x=N('x%d' % i), y=N('y%d' % i),
                  current_x=N('px%d' % i), current_y=N('py%d' % i), current_z=N('Z'), current_f=N('F'), current_e=N('ce'), relative=FALSE, relative_e=TRUE)
        ls.append(l)
    new = any_line(a, 0, e=NONE)
    a.size = 0
    f = Flow(c, a, 'a queue of %d%s' % (n, ', an arc' if valid is TRUE else ''))
    f.step = True
    for l in ls:
        f.give(l)
    f.give(new)
    verdict = lambda name: (lambda st: lit(alg.atom('true', sym(name, 'bool'))))
    a.verdicts(verdict('bad1'), verdict('bad2'))
    q = R.attr(a.obj, 'queue')
    R.st.m[(q.args[0], '$seq')] = seq(*ls)
    R.st.m[(a.obj.args[0], 'valid_circle')] = valid
    if not f.got(a.feed(new), 'a step', new):
        return
    rest = content(a, [R.attr(a.obj, 'queue')])
    if any(x.op == 'opaque' for x in leaves(rest)):
        c.undecided(RULE, a.where, 'the queue afterwards')
        return
    bad = liftn(lambda p, r: B(p is not r), [f.pending, rest])
    f.check(bad, 'what has not come out is held back')
    f.arcs()
    c.seen(R)


PARTS = [runs, programs, step]
