"""reference machine: the state after a line, as decision diagrams (used by C04, C05, C06)"""
from .common import *
from .c07 import number

STATE = {'imperial': 'bool', 'relative': 'bool', 'relative_e': 'bool', 'current_tool': 'int',
         'current_f': 'num', 'current_x': 'num', 'current_y': 'num', 'current_z': 'num', 'current_e': 'num',
         'offset_x': 'num', 'offset_y': 'num', 'offset_z': 'num', 'offset_e': 'num', 'total_e': 'num', 'max_e': 'num',
         'home_x': 'num', 'home_y': 'num', 'home_z': 'num'}
AX = ('x', 'y', 'z')


class Text(object):
    """a line text: letter of the command ('' for a comment), its number, words with a value, letters named without one"""

    def __init__(self, name, letter, words='', bare='', tag='', comment=False, num_=None):
        self.name, self.letter = name, letter
        self.d = C(num_) if num_ is not None else digits('d' + tag)
        self.vals = {}
        self.named = set(words.lower()) | set(bare.lower())
        parts = [C(letter), self.d] if letter else [C('; note')]
        for l in words + bare:
            if l in words:
                v = number('%s.%s', 'v%s%s' % (tag, l))
                self.vals[l.lower()] = num_app('float', v)
                parts += [C(' ' + l), v]
            else:
                parts.append(C(' ' + l))
        if comment:
            parts.append(C(' ; X9 Y9 Z9 E9 F9'))
        self.text = strcat(parts)

    def is_(self, letter, *nums):
        if letter != self.letter:
            return FALSE
        return bor(*[str_test('streq', self.d, n) for n in nums])


def texts(tag='', small=False):
    out = []
    for w in (('', 'X', 'Z', 'E', 'F', 'XYZEF') if small else ('', 'X', 'Y', 'Z', 'E', 'F', 'XY', 'XE', 'ZF', 'EF', 'XYZ', 'XYZE', 'XYZEF')):
        out.append(Text('G with %s' % (w or 'no words'), 'G', w, tag=tag))
    if not small:
        for w in 'XYZE':
            out.append(Text('G naming %s without a number' % w, 'G', '', w, tag=tag))
        out.append(Text('G with X, naming Y without a number', 'G', 'X', 'Y', tag=tag))
        out.append(Text('G with all words and a comment', 'G', 'XYZEF', tag=tag, comment=True))
        out.append(Text('M with all words', 'M', 'XYZEF', tag=tag))
        out.append(Text('T with all words', 'T', 'XYZEF', tag=tag))
    out.append(Text('M', 'M', tag=tag))
    out.append(Text('T', 'T', tag=tag))
    out.append(Text('comment', '', tag=tag))
    return out


def firsts():
    """one line of every kind that changes the machine state"""
    return [Text('G20', 'G', num_='20'), Text('G21', 'G', num_='21'), Text('G90', 'G', num_='90'), Text('G91', 'G', num_='91'),
            Text('M82', 'M', num_='82'), Text('M83', 'M', num_='83'), Text('T', 'T', tag='1'), Text('G28', 'G', num_='28'),
            Text('G28 X', 'G', '', 'X', num_='28'), Text('G92 XYZE', 'G', 'XYZE', num_='92', tag='1'),
            Text('G1 X', 'G', 'X', num_='1', tag='1'), Text('G1 Y', 'G', 'Y', num_='1', tag='1'),
            Text('G1 Z', 'G', 'Z', num_='1', tag='1'), Text('G1 E', 'G', 'E', num_='1', tag='1'), Text('G1 F', 'G', 'F', num_='1', tag='1'),
            Text('G4', 'G', num_='4'), Text('comment', '')]


def start_state():
    s = {}
    for k, kind in STATE.items():
        s[k] = typed(sym('s.' + k, kind), kind)
    return s


def concrete_start():
    s = {}
    for k, kind in STATE.items():
        s[k] = FALSE if kind == 'bool' else num(0)
    return s


def add(a, b, k=1):
    return lift2(lambda x, y: padd(x, y, k), a, b)


def step(s, t):
    """(state after, record): record has x, y, z, advance (diagram, NONE when the line is not a move with E), move"""
    n = dict(s)
    G = t.is_
    n['imperial'] = ite(G('G', '20'), TRUE, ite(G('G', '21'), FALSE, s['imperial']))
    rel = ite(G('G', '91'), TRUE, ite(G('G', '90'), FALSE, s['relative']))
    rel_e = ite(bor(G('G', '91'), G('M', '83')), TRUE, ite(bor(G('G', '90'), G('M', '82')), FALSE, s['relative_e']))
    n['relative'], n['relative_e'] = rel, rel_e
    if t.letter == 'T':
        n['current_tool'] = num_app('int', t.d)
    move = G('G', '0', '1', '2', '3')
    home, setp = G('G', '28'), G('G', '92')
    val = {k: ite(n['imperial'], lift1(lambda l: pscale(l, Fraction(254, 10)), v), v) for k, v in t.vals.items()} if t.letter == 'G' else {}
    if 'f' in val:
        n['current_f'] = ite(move, val['f'], s['current_f'])
    for a in AX:
        c, o = s['current_' + a], s['offset_' + a]
        if a in val:
            n['current_' + a] = ite(move, ite(s['relative'], add(c, val[a]), add(val[a], o)), c)
            n['offset_' + a] = ite(setp, add(c, val[a], -1), o)
        if t.letter == 'G' and (a in t.named or not (t.named & set(AX))):
            n['current_' + a] = ite(home, s['home_' + a], n['current_' + a])
            n['offset_' + a] = ite(home, num(0), n['offset_' + a])
    adv = NONE
    logical = add(s['current_e'], s['offset_e'], -1)
    if 'e' in val:
        a = ite(s['relative_e'], val['e'], add(val['e'], logical, -1))
        adv = ite(move, a, NONE)
        n['total_e'] = ite(move, add(s['total_e'], a), s['total_e'])
        less = lift1(lt_zero, add(s['max_e'], n['total_e'], -1))
        n['max_e'] = ite(move, ite(less, n['total_e'], s['max_e']), s['max_e'])
        logical = ite(setp, val['e'], ite(move, add(logical, a), logical))
    n['logical_e'] = logical
    n['current_e'], n['offset_e'] = logical, num(0)
    rec = {'x': n['current_x'], 'y': n['current_y'], 'z': n['current_z'], 'advance': adv, 'move': move, 'logical_e': logical}
    return n, rec


def make(R, s):
    """a program object in machine state s, as the parser would hold it before any line"""
    g = R.call(GC)
    for k, v in s.items():
        if k in STATE:
            R.st.m[(g.args[0], k)] = v
    return g


def feed(R, g, how, ts):
    """feeds texts; returns the lines"""
    if how == 'append':
        return [R.method(g, 'append', t.text) for t in ts]
    r = R.method(g, 'prepare', R.I.new_list(R.st, seq(*[t.text for t in ts])))
    if r is None:
        return None
    q = R.I.content(R.st, R.attr(g, 'lines'))
    if q.op != 'seq' or any(p.op != 'e' for p in q.args[0]) or len(q.args[0]) != len(ts):
        return None
    return [p.args[0] for p in q.args[0]]


def final(R, g):
    out = {k: R.attr(g, k) for k in STATE}
    out['logical_e'] = add(out['current_e'], out['offset_e'], -1)
    return out
