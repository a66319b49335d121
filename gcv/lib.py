"""Models of builtins and library calls."""
import ast
import re
import string

from .alg import *
from . import alg
from .state import *
from .ev import BI, isstr, isnumlike, asnum

PI = poly_of(app('pi'))
INF = poly_of(app('inf'))
STDOUT = mk('ref', sym('sys.stdout', 'obj', 'file'))
STDIN = mk('ref', sym('sys.stdin', 'obj', 'file'))
STDERR = mk('ref', sym('sys.stderr', 'obj', 'file'))
LOGROOT = mk('sym', 'root logger', 'obj', 'Logger')
LEVELS = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'WARN': 30, 'ERROR': 40, 'CRITICAL': 50, 'FATAL': 50, 'NOTSET': 0}


def _keep():
    return (PI, INF)


def digit_uniform(pat, flags):
    """no character class or literal of the pattern tells one digit from another"""
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp

    def ok(t):
        for op, av in t:
            o = str(op)
            if o in ('LITERAL', 'NOT_LITERAL'):
                if chr(av).isdigit():
                    return False
            elif o == 'IN':
                has = [False] * 10
                for k, v in av:
                    k = str(k)
                    if k == 'LITERAL' and 48 <= v <= 57:
                        has[v - 48] = True
                    elif k == 'RANGE':
                        for d in range(10):
                            has[d] |= v[0] <= 48 + d <= v[1]
                if any(has) and not all(has):
                    return False
            elif o == 'BRANCH':
                if not all(ok(b) for b in av[1]):
                    return False
            elif o in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                if not ok(av[2]):
                    return False
            elif o == 'SUBPATTERN':
                if not ok(av[3]):
                    return False
            elif o in ('ASSERT', 'ASSERT_NOT'):
                if not ok(av[1]):
                    return False
            elif o in ('GROUPREF', 'GROUPREF_EXISTS', 'ATOMIC_GROUP'):
                return False
        return True
    return ok(sp.parse(pat, flags))


def known_pieces(name, x, args):
    """pieces of a text of constants and runs of digits at a separator without digits, None if not known"""
    sep = args[0] if args else None
    if sep is not None and any(ch.isdigit() for ch in sep):
        return None
    if x.op == 'c' and isinstance(x.args[1], str):
        rep, spans = x.args[1], [(0, len(x.args[1]), x)]
    else:
        r = rep_text(x)
        if r is None:
            return None
        rep, spans = r
    out, pos = [], 0
    for t in getattr(rep, name)(*args):
        if t == '' and sep is None:
            return None
        k = rep.index(t, pos)
        out.append(rep_slice(spans, rep, k, k + len(t)))
        pos = k + len(t) + (len(sep) if sep is not None and not name.endswith('partition') else 0)
    return out


class Lib(object):
    pi = PI
    keep_abs = False    # |x| as one term instead of a choice

    def absolute(self, p):
        if self.keep_abs and not is_num_const(p):
            q = neg(p)
            return num_app('abs', p if p.id < q.id else q)
        return ite(lt_zero(p), neg(p), p)


    # ------------------------------------------------------------ sequences

    def is_listlike(self, x):
        if x.op != 'ref':
            return False
        c = self.class_of(x.args[0])
        if isinstance(c, Cls):
            return 'list' in c.base_names()
        return isinstance(c, str) and c.split(':')[0] in ('list', 'set', 'array', 'iter', 'frozenset', 'deque')

    def content(self, st, x):
        v = self.read(st, x.args[0], '$seq')
        if v is ABSENT:
            return EMPTYSEQ
        return constrain(v, st.pc) if st is not None else v

    def set_content(self, st, x, v, n):
        k = (x.args[0], '$seq')
        if self.trace_writes and not self.rerun:
            self.writes.append((x.args[0], '$seq', self.content(st, x), v, st.pc, self.site(n)))
        st.m[k] = v

    def iter_seq(self, st, v, n):
        def f(s, x):
            if x.op == 'tup':
                return seq(*x.args[0])
            if x.op == 'seq':
                return x
            if x.op == 'ref':
                c = self.class_of(x.args[0])
                if c == 'dict':
                    items = self.read(s, x.args[0], '$items')
                    return lift1(lambda q: self.map_seq(q, lambda t: t.args[0][0] if t.op == 'tup' else app('at', t, num(0))), items)
                m = self.find_method(s, x, '__iter__')
                if m is not None:
                    r = self.call(s, m, [], {}, n)
                    if r is x:
                        return self.opaque_iter(s, x, n)
                    return self.iter_seq(s, r, n)
                if self.is_listlike(x):
                    return self.content(s, x)
                if c == 'file':
                    return self.file_lines(s, x)
                if isinstance(c, Cls):
                    ln, gi = self.find_method(s, x, '__len__'), self.find_method(s, x, '__getitem__')
                    if ln is not None and gi is not None:
                        k = self.call(s, ln, [], {}, n)
                        i = self.fresh_idx(k)
                        return fm(k, i, seq(self.call(s, gi, [poly_of(i)], {}, n)))
                self.raise_(s, TRUE, 'TypeError', n, 'not iterable')
                return EMPTYSEQ
            if x.op == 'c' and isinstance(x.args[1], (str, bytes)):
                return seq(*[C(ch) for ch in x.args[1]])
            if x is NONE or isnumlike(x):
                self.raise_(s, TRUE, 'TypeError', n, 'not iterable')
                return EMPTYSEQ
            if x.op in ('sym', 'app', 'cat'):
                b = app('seqof', x, 'any')
                if not isstr(x):
                    self.raise_(s, bnot(constrain(lit(atom('iterable', x)), s.pc)), 'TypeError', n, 'not iterable')
                return mk('seq', (mk('s', b, num(0), len_base(b)),))
            self.opaque(n, 'iteration over ' + x.op)
            return EMPTYSEQ
        return self.lift_eff(st, v, f)

    def opaque_iter(self, st, x, n):
        o = self.opaque(n, 'iteration over an iterator object')
        b = app('seqof', o, 'any')
        return mk('seq', (mk('s', b, num(0), len_base(b)),))

    def file_lines(self, st, x):
        b = app('seqof', app('readlines', x.args[0]), 'str')
        return mk('seq', (mk('s', b, num(0), len_base(b)),))

    def part_elem(self, p, k):
        """value of element k of slice part p"""
        e = at_base(p.args[0], padd(p.args[1], k))
        kd = self.elem_kind_of(p.args[0])
        return self.symbolic_elem(e, kd) if kd else e

    def map_seq(self, q, f):
        """apply a pure function to every element of a sequence leaf"""
        out = []
        for p in q.args[0]:
            if p.op == 'e':
                out.append(mk('e', lift1(f, p.args[0])))
            elif p.op == 's':
                cnt = padd(p.args[2], p.args[1], -1)
                i = self.fresh_idx(cnt)
                r = fm(cnt, i, seq(lift1(f, self.part_elem(p, poly_of(i)))))
                out += list(r.args[0])
            else:
                r = fm(p.args[0], p.args[1], lift1(lambda b: self.map_seq(b, f), p.args[2]))
                out += list(r.args[0]) if r.op == 'seq' else [p]
        return seq_parts(out)

    def seqlen(self, st, x, n):
        if x.op == 'tup':
            return num(len(x.args[0]))
        if isstr(x):
            if x.op == 'c':
                return num(len(x.args[1]))
            r = num(0)
            for y in x.args[0] if x.op == 'cat' else (x,):
                r = padd(r, num(len(y.args[1])) if y.op == 'c' else num_app('len', y))
                if is_digits(y):        # not empty
                    r = padd(r, num(1))
                    r = padd(padd(r, num_app('len', y), -1), num_app('len', mk('app', 'slice', y, num(1), NONE, NONE)))
            return r
        if x.op == 'ref':
            m = self.find_method(st, x, '__len__')
            if m is not None:
                return self.call(st, m, [], {}, n)
            if self.is_listlike(x):
                return lift1(seq_len, self.content(st, x))
            if self.class_of(x.args[0]) == 'dict':
                return lift1(seq_len, self.read(st, x.args[0], '$items'))
        if x is NONE or isnumlike(x):
            self.raise_(st, TRUE, 'TypeError', n, 'len')
            return num(0)
        return num_app('len', x)

    # ------------------------------------------------------------ dicts

    def dict_set(self, st, d, k, v, n):
        if d.args[0].op == 'app' and d.args[0].args[0] == 'dictof' and (d.args[0], '$items') not in st.m and k.op == 'c':
            return self.setattr(st, mk('ref', d.args[0].args[1]), k.args[1], v, n)
        items = self.read(st, d.args[0], '$items')
        if items is ABSENT:
            items = EMPTYSEQ
        boxed = v if v.op != 'ite' else mk('box', v)

        def f(q, kk):
            parts = list(q.args[0])
            for j in range(len(parts) - 1, -1, -1):
                p = parts[j]
                if p.op == 'e' and p.args[0].op == 'tup' and p.args[0].args[0][0] is kk:
                    parts[j] = mk('e', mk('tup', (kk, boxed)))
                    return mk('seq', tuple(parts))
            return mk('seq', tuple(parts) + (mk('e', mk('tup', (kk, boxed))),))
        st.m[(d.args[0], '$items')] = lift2(f, items, k)

    def unbox(self, v):
        return v.args[0] if v.op == 'box' else v

    def dict_items(self, st, d):
        v = self.read(st, d.args[0], '$items')
        return EMPTYSEQ if v is ABSENT else constrain(v, st.pc)

    def dict_get(self, st, d, k, n, default=None):
        if d.args[0].op == 'app' and d.args[0].args[0] == 'dictof' and (d.args[0], '$items') not in st.m:
            return self.getattr(st, mk('ref', d.args[0].args[1]), k.args[1], n, default) if k.op == 'c' else self.opaque(n, 'vars()')
        items = self.dict_items(st, d)

        def f(s, q):
            res = None
            parts = q.args[0]
            miss = default
            for p in parts:
                if p.op == 'e' and p.args[0].op == 'tup':
                    kk = p.args[0].args[0][0]
                    c = self.eq(s, kk, k, n)
                    v = self.unbox(p.args[0].args[0][1])
                    if c is TRUE:
                        res = v
                        return v
                    if c is FALSE:
                        continue
                    rest = [x for x in parts if x is not p]
                    return self.cond(s, constrain(c, s.pc), lambda s2: v, lambda s2: f(s2, mk('seq', tuple(rest))))
                return app('dictget', q, k)
            if miss is not None:
                return miss
            self.raise_(s, TRUE, 'KeyError', n, 'key %s' % show(k))
            return self.opaque(n, 'missing key', quiet=True)
        return self.lift_eff(st, items, f)

    def dict_has(self, st, d, k, n):
        items = self.dict_items(st, d)

        def f(q):
            r = FALSE
            for p in q.args[0]:
                if p.op == 'e' and p.args[0].op == 'tup':
                    r = bor(r, self.eq(st, p.args[0].args[0][0], k, n))
                else:
                    return lit(atom('member', q, k))
            return r
        return lift1(f, items)

    def dict_const_items(self, st, v, n):
        out = []
        for l in leaves(v):
            if l.op == 'ref' and l.args[0].op == 'app' and l.args[0].args[0] == 'dictof' and (l.args[0], '$items') not in st.m:
                return self.namespace_items(st, l.args[0].args[1], n)
            if l.op == 'ref' and self.class_of(l.args[0]) == 'dict':
                q = self.dict_items(st, l)
                if q.op == 'seq' and all(p.op == 'e' and p.args[0].op == 'tup' for p in q.args[0]):
                    return [(p.args[0].args[0][0], self.unbox(p.args[0].args[0][1])) for p in q.args[0]]
        self.opaque(n, 'keyword expansion')
        return out

    def namespace_items(self, st, t, n):
        out = []
        seen = set()
        for (k, name) in list(st.m):
            if k is t and isinstance(name, str) and not name.startswith('$'):
                v = constrain(st.m[(k, name)], st.pc)
                if v is not ABSENT:
                    out.append((C(name), v))
                    seen.add(name)
        return out

    # ------------------------------------------------------------ sets

    def set_op(self, st, op, a, b, n):
        x, y = self.content(st, a), self.iter_seq(st, b, n)
        if op == '|':
            r = concat(x, y)
        else:
            def g(p, q):
                if op in '-&' and len(p.args[0]) <= 12:
                    return self.set_filter(st, op, p, q, n)
                b = app('seqof', app('set' + op, p, q), 'any')
                return mk('seq', (mk('s', b, num(0), len_base(b)),))
            r = lift2(g, x, y)
        return self.new_list(st, r, n, 'set')

    def set_filter(self, st, op, p, q, n):
        """elements of sequence p that are (not) in sequence q"""
        def keep(e):
            c = constrain(self.seq_has(st, q, e, n), st.pc)
            return ite(c, EMPTYSEQ, seq(e)) if op == '-' else ite(c, seq(e), EMPTYSEQ)

        def one(e):
            return lift1(lambda l: keep(l), e)
        r = EMPTYSEQ
        for t in p.args[0]:
            if t.op == 'e':
                v = one(t.args[0])
            elif t.op == 's':
                cnt = padd(t.args[2], t.args[1], -1)
                i = self.fresh_idx(cnt)
                v = fm(cnt, i, one(self.part_elem(t, poly_of(i))))
            else:
                v = fm(t.args[0], t.args[1], lift1(lambda b: self.set_filter(st, op, b, q, n), t.args[2]))
            r = concat(r, v)
        return r

    # ------------------------------------------------------------ strings

    def str_index(self, st, x, k, n):
        if k.op != 'p':
            return app('slice', x, k)
        if x.op == 'c' and is_num_const(k):
            i = int(num_val(k))
            s = x.args[1]
            if -len(s) <= i < len(s):
                return C(s[i])
            self.raise_(st, TRUE, 'IndexError', n, 'string index')
            return C('')
        if is_num_const(k) and num_val(k) == 0:
            if x.op == 'cat' and x.args[0][0].op == 'c':
                return C(x.args[0][0].args[1][0])
            self.raise_(st, constrain(str_test('streq', x, ''), st.pc), 'IndexError', n, 'first character of an empty string')
            return self.first(x)
        if x.op == 'cat' and is_num_const(k):
            i = int(num_val(k))
            p = x.args[0][0] if i >= 0 else x.args[0][-1]
            if p.op == 'c' and (i < len(p.args[1]) if i >= 0 else -i <= len(p.args[1])):
                return C(p.args[1][i])
        return app('slice', x, k)

    def first(self, x):
        if x.op == 'c':
            return C(x.args[1][:1])
        if x.op == 'cat':
            if x.args[0][0].op == 'c':
                return C(x.args[0][0].args[1][:1])
            if x.args[0][0].op == 'app' and x.args[0][0].args[0] == 'first':
                return app('first', x)
        if x.op == 'app' and x.args[0] == 'first':
            return x
        return app('first', x)

    def str_slice(self, st, x, lo, hi, sp, n):
        def cst(v):
            if v is NONE:
                return True, None
            if v.op == 'p' and is_num_const(v):
                return True, int(num_val(v))
            return False, None
        (a, l), (b, h), (c, s) = cst(lo), cst(hi), cst(sp)
        if x.op == 'c' and a and b and c:
            return C(x.args[1][l:h:s])
        if sp is NONE and a and b:
            if not l and h is None:
                return x
            if not l and h == 1:
                return self.first(x)
            if h is None and l and l > 0:
                if x.op == 'cat' and x.args[0][0].op == 'c' and len(x.args[0][0].args[1]) >= l:
                    return strcat((C(x.args[0][0].args[1][l:]),) + x.args[0][1:])
                if l == 1 and x.op != 'cat':
                    return app('rest', x)
            if x.op == 'cat' and h is not None and h < 0 and not l and x.args[0][-1].op == 'c' and len(x.args[0][-1].args[1]) >= -h:
                return strcat(x.args[0][:-1] + (C(x.args[0][-1].args[1][:h]),))
        # s[s.index(c):]
        if sp is NONE and hi is NONE and lo.op == 'p' and len(lo.args[0]) == 1:
            m, k = lo.args[0][0]
            if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'sindex' and m[0][0].args[1] is x:
                return strcat([m[0][0].args[2], after(x, m[0][0].args[2])])
        if sp is NONE and (lo is NONE or (a and l == 0)) and hi.op == 'p' and len(hi.args[0]) == 1:
            m, k = hi.args[0][0]
            if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'sindex' and m[0][0].args[1] is x:
                return app('before', x, m[0][0].args[2])
        return app('slice', x, lo, hi, sp) if not any(v.op == 'ite' for v in (lo, hi, sp)) else \
            liftn(lambda *v: self.str_slice(st, x, v[0], v[1], v[2], n), [lo, hi, sp])

    def str_of(self, st, v, n):
        return self.lift_eff(st, v, lambda s, x: self.str_leaf(s, x, n))

    def str_leaf(self, st, x, n):
        if isstr(x):
            return x
        if x.op == 'c':
            return C(str(x.args[1]))
        if x.op == 'ref':
            m = self.find_method(st, x, '__str__') or self.find_method(st, x, '__repr__')
            if m is not None:
                return self.call(st, m, [], {}, n)
            return app('str', x.args[0])
        return app('fmt', '', x)

    def spec_text(self, t):
        """a format specification made of constants, else None"""
        out = ''
        for p in (t.args[0] if t.op == 'cat' else (t,)):
            if p.op == 'c' and isinstance(p.args[1], str):
                out += p.args[1]
            elif p.op == 'app' and p.args[0] == 'fmt' and p.args[1] in ('', 'd') and is_num_const(asnum(p.args[2])) and num_val(asnum(p.args[2])).denominator == 1:
                out += str(int(num_val(asnum(p.args[2]))))
            else:
                return None
        return out

    def fmt_term(self, st, v, spec, conv, n):
        """the specification is a term"""
        def f(s, sp):
            t = self.spec_text(sp)
            return self.fmt_value(s, v, t, conv, n) if t is not None else app('str', self.opaque(n, 'format spec'))
        return self.lift_eff(st, spec, f)

    def fmt_value(self, st, v, spec, conv, n):
        if spec and spec[-1] in 'fFeEgG':
            if spec[-1] == 'F':
                spec = spec[:-1] + 'f'
            if '.' not in spec and spec[-1] != 'g':
                spec = spec[:-1] + '.6' + spec[-1]

        def f(s, x):
            if isstr(x) and spec in ('', 's') and conv in ('', 's'):
                return x
            if spec and spec[-1] in 'fFeEgGd%':
                if x is NONE or isstr(x):
                    self.raise_(s, TRUE, 'TypeError', n, 'format %s of %s' % (spec, show(x)))
                    return app('fmt', spec, x)
                if spec == 'd' or spec == '':
                    pass
                return app('fmt', spec, asnum(x) if isnumlike(x) or x.op in ('sym', 'app') else x)
            if conv == 'r':
                return app('repr', x)
            if spec in ('', 's'):
                if isnumlike(x) and is_num_const(asnum(x)) and num_val(asnum(x)).denominator == 1 and x.op == 'p':
                    return app('fmt', '', x)
                return self.str_leaf(s, x, n)
            return app('fmt', spec, x)
        return self.lift_eff(st, v, f)

    def percent(self, st, a, b, n):
        if a.op != 'c':
            return app('str', app('percent', a, b))
        s = a.args[1]
        out = []
        pos = 0
        k = 0
        items = list(b.args[0]) if b.op == 'tup' else [b]
        for m in re.finditer(r'%(\(\w+\))?([-+ #0]*)(\*|\d+)?(\.(?:\d+|\*))?([hlL]?)([diouxXeEfFgGcrs%])', s):
            out.append(C(s[pos:m.start()]))
            pos = m.end()
            if m.group(6) == '%':
                out.append(C('%'))
                continue
            stars = []
            for w in (m.group(3), m.group(4)):
                if w and '*' in w and not m.group(1):
                    stars.append(items[k] if k < len(items) else NONE)
                    k += 1
            if m.group(1):
                v = self.dict_get(st, b, C(m.group(1)[1:-1]), n) if b.op == 'ref' else self.opaque(n, 'named format')
            else:
                if k >= len(items):
                    self.raise_(st, TRUE, 'TypeError', n, 'not enough format arguments')
                    return app('str', a)
                v = items[k]
                k += 1
            t = m.group(6)
            if stars:
                given = [stars.pop(0) if w and '*' in w else C((w or '').lstrip('.')) for w in (m.group(3), m.group(4))]
                t = 'd' if t in 'iu' else 'f' if t == 'F' else t
                sep = '.' if m.group(4) else ''

                def starred(*ws, flags=m.group(2) or '', t=t, sep=sep):
                    ws = [w if w.op == 'c' else app('fmt', '', w) for w in ws]
                    return strcat([C(flags), ws[0], C(sep), ws[1], C(t)])
                out.append(self.fmt_term(st, v, liftn(starred, given), '', n))
                continue
            fl = (m.group(2) or '') + (m.group(3) or '')
            if t in 'sr':
                spec = fl + ('s' if fl else '')
                x = self.fmt_value(st, v, '', 'r' if t == 'r' else '', n)
                out.append(x if not fl else lift1(lambda y: app('fmt', spec, y), x))
            else:
                if t in 'iu':
                    t = 'd'
                if t == 'F':
                    t = 'f'
                prec = m.group(4) or ('.6' if t in 'feEgG' else '')
                out.append(self.fmt_value(st, v, fl + prec + t, '', n))
        out.append(C(s[pos:]))
        if k < len(items) and b.op == 'tup':
            self.raise_(st, TRUE, 'TypeError', n, 'too many format arguments')
        return strcat(out)

    def do_format(self, st, f, args, kw, n):
        """str.format on a constant format string"""
        if f.op != 'c':
            return app('str', app('format', f, *[a for a in args if isinstance(a, N) and a.op != 'ite']))
        out = []
        auto = 0
        # starred argument list
        flat = []
        for a in args:
            if isinstance(a, tuple):
                return self.lift_eff(st, a[1], lambda s, q: self.do_format(s, f, [p.args[0] for p in q.args[0]], kw, n)
                                     if all(p.op == 'e' for p in q.args[0]) else app('str', app('format', f, q)))
            flat.append(a)
        try:
            fields = list(string.Formatter().parse(f.args[1]))
        except ValueError:
            self.raise_(st, TRUE, 'ValueError', n, 'format')
            return app('str', f)
        for text, field, spec, conv in fields:
            out.append(C(text))
            if field is None:
                continue
            m = re.match(r'^(\w*)(.*)$', field)
            key, tail = m.group(1), m.group(2)
            if key == '':
                key = str(auto)
                auto += 1
            if key.isdigit():
                if int(key) >= len(flat):
                    self.raise_(st, TRUE, 'IndexError', n, 'format argument')
                    return app('str', f)
                v = flat[int(key)]
            else:
                if key not in kw:
                    self.raise_(st, TRUE, 'KeyError', n, 'format argument')
                    return app('str', f)
                v = kw[key]
            while tail:
                m = re.match(r'^\.(\w+)(.*)$', tail)
                if not m:
                    v = self.opaque(n, 'format field')
                    break
                v = self.getattr(st, v, m.group(1), n)
                tail = m.group(2)
            sp = spec or ''
            if '{' in sp:
                # fields inside of the specification
                ps = []
                for text2, field2, spec2, conv2 in string.Formatter().parse(sp):
                    ps.append(C(text2))
                    if field2 is None:
                        continue
                    if field2 == '':
                        field2 = str(auto)
                        auto += 1
                    w = flat[int(field2)] if field2.isdigit() and int(field2) < len(flat) else kw.get(field2)
                    if w is None:
                        self.raise_(st, TRUE, 'IndexError' if field2.isdigit() else 'KeyError', n, 'format argument')
                        return app('str', f)
                    ps.append(lift1(lambda x: x if x.op == 'c' else app('fmt', '', x), w))
                out.append(self.fmt_term(st, v, strcat(ps), conv or '', n))
                continue
            out.append(self.fmt_value(st, v, sp, conv or '', n))
        return strcat(out)

    def m_str(self, st, name, x, args, kw, n):
        """method of a string leaf"""
        cargs = all(a.op == 'c' or (a.op == 'p' and is_num_const(a)) for a in args if isinstance(a, N)) and \
            not any(isinstance(a, tuple) for a in args)
        if x.op == 'c' and cargs and name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace', 'find',
                                              'index', 'count', 'isdigit', 'title', 'capitalize', 'zfill', 'ljust', 'rjust', 'isalpha'):
            try:
                r = getattr(x.args[1], name)(*[a.args[1] if a.op == 'c' else int(num_val(a)) for a in args])
            except ValueError:
                self.raise_(st, TRUE, 'ValueError', n, 'str.' + name)
                return num(-1)
            return B(r) if isinstance(r, bool) else num(r) if isinstance(r, int) else C(r)
        if name in ('lower', 'upper'):
            if x.op == 'cat':
                return strcat([self.m_str(st, name, p, [], {}, n) for p in x.args[0]])
            if x.op == 'app' and x.args[0] == name:
                return x
            if is_digits(x):
                return x
            return app(name, x)
        if name in ('strip', 'lstrip', 'rstrip') and cargs:
            r = rep_text(x)
            if r is not None and not (args and any(ch.isdigit() for ch in args[0].args[1])):
                t = getattr(r[0], name)(*[a.args[1] for a in args])
                lo = r[0].index(t) if name != 'rstrip' else 0
                return rep_slice(r[1], r[0], lo, lo + len(t))
        if name == 'strip' and not args:
            if x.op == 'cat':
                ps = list(x.args[0])
                if ps[0].op == 'c':
                    ps[0] = C(ps[0].args[1].lstrip())
                if ps[-1].op == 'c':
                    ps[-1] = C(ps[-1].args[1].rstrip())
                if ps[0].op == 'c' and ps[0].args[1] and (ps[-1].op == 'c' and ps[-1].args[1] or
                                                          (ps[-1].op == 'app' and ps[-1].args[0] == 'fmt')):
                    return strcat(ps)
            if x.op == 'app' and x.args[0] == 'strip':
                return x
            return app('strip', x)
        if name in ('startswith', 'endswith'):
            kind = 'prefix' if name == 'startswith' else 'suffix'
            a = args[0]

            def t(y):
                if y.op == 'tup':
                    return bor(*[t(z) for z in y.args[0]])
                if y.op == 'c':
                    if y.args[1] == '':
                        return TRUE
                    return str_test(kind, x, y.args[1])
                return lit(atom(kind + '2', x, y))
            return lift1(t, a)
        if name in ('split', 'rsplit', 'partition', 'rpartition') and cargs and not kw and (not args or args[0].op == 'c' and args[0].args[1]):
            ps = known_pieces(name, x, [a.args[1] if a.op == 'c' else int(num_val(a)) for a in args])
            if ps is not None:
                return mk('tup', tuple(ps)) if name.endswith('partition') else self.new_list(st, seq(*ps), n)
        if name in ('index', 'find') and len(args) == 1:
            a = args[0]
            if a.op == 'c':
                has = constrain(str_test('in', x, a.args[1]), st.pc)
                r = num_app('sindex', x, a)
                if name == 'index':
                    self.raise_(st, bnot(has), 'ValueError', n, 'substring not found')
                    return r
                return ite(has, r, num(-1))
            return num_app('sindex', x, a)
        if name == 'partition' and args and args[0].op == 'c':
            c = args[0]
            has = constrain(str_test('in', x, c.args[1]), st.pc)
            return ite(has, mk('tup', (app('before', x, c), c, after(x, c))), mk('tup', (x, C(''), C(''))))
        if name == 'split':
            if len(args) == 2 and args[0].op == 'c' and is_num_const(args[1]) and num_val(args[1]) == 1:
                c = args[0]
                has = constrain(str_test('in', x, c.args[1]), st.pc)
                return self.new_list(st, ite(has, seq(app('before', x, c), after(x, c)), seq(x)), n)
            b = app('seqof', app('split', x, *args), 'str')
            return self.new_list(st, mk('seq', (mk('s', b, num(0), len_base(b)),)), n)
        if name in ('splitlines', 'rsplit'):
            b = app('seqof', app(name, x, *args), 'str')
            return self.new_list(st, mk('seq', (mk('s', b, num(0), len_base(b)),)), n)
        if name == 'join':
            sq = self.iter_seq(st, args[0], n)

            def j(q):
                if all(p.op == 'e' for p in q.args[0]):
                    out = []
                    for p in q.args[0]:
                        if out:
                            out.append(x)
                        out.append(p.args[0])
                    return strcat(out)
                return app('join', x, q)
            return lift1(j, sq)
        if name == 'format':
            return self.do_format(st, x, args, kw, n)
        if name == 'replace':
            return app('replace', x, *args)
        if name in ('isdigit', 'isalpha', 'isspace', 'isupper', 'islower'):
            return lit(atom(name, x))
        if name == 'count':
            return num_app('count', x, *args)
        if name in ('encode', 'decode'):
            if x.op == 'app' and x.args[0] == 'decompress' and x.args[1].op == 'app' and x.args[1].args[0] == 'plain':
                return x.args[1].args[1]
            return app('decode', x)
        if name in ('lstrip', 'rstrip', 'strip', 'title', 'capitalize', 'zfill', 'ljust', 'rjust', 'expandtabs', 'translate'):
            return app('replace', C(name), x, *args)
        if name in ('__len__',):
            return self.seqlen(st, x, n)
        if name == '__contains__':
            return self.contains(st, x, args[0], n)
        return self.opaque(n, 'str.' + name)

    # ------------------------------------------------------------ lists

    def m_list(self, st, name, x, args, kw, n):
        q = self.content(st, x)
        if name in ('append', '$push', 'add'):
            v = args[0]
            cls = self.class_of(x.args[0])
            if cls == 'set':
                has = constrain(lift1(lambda s: self.seq_has(st, s, v, n), q), st.pc)
                if has is TRUE:
                    return NONE
                if has is not FALSE and all(p.op == 'e' for l in leaves(q) for p in l.args[0]):
                    self.set_content(st, x, ite(has, q, concat(q, seq(v))), n)
                    return NONE
            self.set_content(st, x, concat(q, seq(v)), n)
            return NONE
        if name == 'extend' or name == 'update':
            if self.iterable_ok(st, args[0], n):
                self.set_content(st, x, concat(q, self.iter_seq(st, args[0], n)), n)
            return NONE
        if name == 'insert':
            k = asnum(args[0]) if args[0].op != 'ite' else args[0]

            def g(s, i):
                ln = seq_len(s)
                i2, _ = self.slice_bounds(st, ln, i, NONE)
                return liftn(lambda j, l: concat(concat(self.seq_cut(st, s, num(0), j, l), seq(args[1])),
                                                 self.seq_cut(st, s, j, l, l)), [i2, ln])
            self.set_content(st, x, lift2(g, q, k), n)
            return NONE
        if name == 'pop' or name == 'popleft':
            k = asnum(args[0]) if args else num(-1) if name == 'pop' else num(0)
            return self.list_pop(st, x, k, n)
        if name == 'remove':
            has = constrain(lift1(lambda s: self.seq_has(st, s, args[0], n), q), st.pc)
            self.raise_(st, bnot(has), 'ValueError', n, 'list.remove')
            self.set_content(st, x, lift1(lambda s: mk('seq', (mk('s', app('seqof', app('without', s, args[0]), 'any'), num(0),
                                                                     padd(seq_len(s), num(-1))),)), q), n)
            return NONE
        if name == 'index':
            has = constrain(lift1(lambda s: self.seq_has(st, s, args[0], n), q), st.pc)
            self.raise_(st, bnot(has), 'ValueError', n, 'not in list')
            return lift2(lambda s, v: self.seq_find(st, s, v, n), constrain(q, st.pc), args[0])
        if name == 'count':
            return lift1(lambda s: num_app('count', s, args[0]), q)
        if name == 'clear':
            self.set_content(st, x, EMPTYSEQ, n)
            return NONE
        if name in ('copy', 'tolist'):
            return self.new_list(st, q, n, self.class_of(x.args[0]) if name == 'copy' and isinstance(self.class_of(x.args[0]), str)
                                 else 'list')
        if name == 'reverse':
            self.set_content(st, x, lift1(self.seq_rev, q), n)
            return NONE
        if name == 'sort':
            self.set_content(st, x, lift1(lambda s: self.sorted_seq(s, kw), q), n)
            return NONE
        if name in ('union', 'difference', 'intersection', 'symmetric_difference'):
            op = {'union': '|', 'difference': '-', 'intersection': '&'}.get(name, '^')
            r = x
            for a in args:
                if op == '|':
                    r = self.new_list(st, concat(self.content(st, r), self.iter_seq(st, a, n)), n, 'set')
                else:
                    b = self.new_list(st, self.iter_seq(st, a, n), n, 'set')
                    r = self.set_op(st, op, r, b, n)
            return r if r is not x else self.new_list(st, q, n, 'set')
        if name == 'discard':
            self.set_content(st, x, lift1(lambda s: mk('seq', (mk('s', app('seqof', app('without', s, args[0]), 'any'), num(0),
                                                                     len_base(app('seqof', app('without', s, args[0]), 'any'))),)), q), n)
            return NONE
        if name == '__init__':
            self.set_content(st, x, self.iter_seq(st, args[0], n) if args else EMPTYSEQ, n)
            return NONE
        if name == '__len__':
            return lift1(seq_len, q)
        if name == '__iter__':
            return x
        if name == '__getitem__':
            return self.lift_eff(st, args[0], lambda s, y: self.index_leaf(s, x, y, n))
        if name in ('__next__', 'next'):
            return self.b_next(st, [x], {}, n)
        if name == '__contains__':
            return self.contains(st, x, args[0], n)
        return self.opaque(n, 'list.' + name)

    def iterable_ok(self, st, v, n):
        ok = [False]

        def f(s, y):
            if self.iterable_leaf(s, y, n):
                ok[0] = True
            return NONE
        self.lift_eff(st, v, f)
        return ok[0]

    def list_pop(self, st, x, k, n):
        q = self.content(st, x)
        ln = lift1(seq_len, q)
        kk = self.norm_index(st, q, k, n)
        val = self.lift_eff2(st, constrain(q, st.pc), kk, lambda s, a, i: self.seq_get(s, a, i, n))

        def g(s, i):
            l = seq_len(s)
            return liftn(lambda m: concat(self.seq_cut(st, s, num(0), i, m), self.seq_cut(st, s, padd(i, num(1)), m, m)), [l])
        self.set_content(st, x, lift2(g, q, kk), n)
        return val

    def seq_find(self, st, q, v, n):
        """index of the first element equal to v"""
        pos = num(0)
        parts = q.args[0]

        def go(k, pos):
            if k == len(parts):
                return num_app('notfound')
            p = parts[k]
            if p.op == 'e':
                c = self.eq(st, p.args[0], v, n)
                return ite(c, pos, go(k + 1, padd(pos, num(1)))) if c is not TRUE else pos
            if p.op == 's':
                cnt = padd(p.args[2], p.args[1], -1)
                i = self.fresh_idx(cnt)
                c = self.eq(st, self.part_elem(p, poly_of(i)), v, n)
            else:
                cnt, i = p.args[0], p.args[1]
                if not self.unit_fm(p):
                    return num_app('find', q, v)
                c = self.eq(st, lift1(lambda l: l.args[0][0].args[0], p.args[2]), v, n)
            a = any_(cnt, i, c)
            here = padd(pos, self.first_idx(cnt, i, c))
            if a is TRUE:
                return here
            return ite(a, here, go(k + 1, padd(pos, cnt)))
        return go(0, pos)

    def first_idx(self, cnt, i, c):
        """least index in range satisfying c"""
        if c is TRUE:
            return num(0)
        if i not in syms(c):
            return num(0)
        t = app('first_i', cnt, i, c)
        return poly_of(mk('sym', t, 'int', cnt))

    def sorted_seq(self, q, kw=None):
        if len(q.args[0]) == 0:
            return q
        if not kw and len(q.args[0]) <= 5 and all(p.op == 'e' and all(l.op == 'p' for l in leaves(p.args[0])) for p in q.args[0]):
            out = []                # insertion into a sorted row, smallest first
            for p in q.args[0]:
                x = p.args[0]
                for k, y in enumerate(out):
                    less = lift2(lambda a, b: lt_zero(padd(a, b, -1)), x, y)
                    out[k], x = ite(less, x, y), ite(less, y, x)
                out.append(x)
            return seq(*out)
        if kw:
            key = tuple(sorted((k, v) for k, v in kw.items() if isinstance(v, N)))
            b = app('seqof', app('sorted', q, tuple(v for _, v in key)), self.kind_of_seq(q))
        else:
            b = app('seqof', app('sorted', q), self.kind_of_seq(q))
        ln = seq_len(q)
        if ln.op != 'p':
            ln = len_base(b)
        return mk('seq', (mk('s', b, num(0), ln),))

    def kind_of_seq(self, q):
        ks = set()
        for p in q.args[0]:
            if p.op == 'e':
                for l in leaves(p.args[0]):
                    ks.add(self.leaf_kind(l))
            elif p.op == 's':
                ks.add(self.elem_kind_of(p.args[0]) or 'any')
            else:
                for l in leaves(p.args[2]):
                    if l.op == 'seq':
                        ks.add(self.kind_of_seq(l))
        ks.discard('empty')
        if not ks:
            return 'empty'
        if len(ks) == 1:
            return ks.pop()
        if ks <= {'num', 'int'}:
            return 'num'
        if ks <= {'num', 'int', 'num?', 'none', 'int?'}:
            return 'num?'
        return 'any'

    def leaf_kind(self, l):
        if l.op == 'p':
            return 'int' if is_int(l) else 'num'
        if l is TRUE or l is FALSE:
            return 'bool'
        if isstr(l):
            return 'str'
        if l is NONE:
            return 'none'
        if l.op == 'ref':
            c = self.class_of(l.args[0])
            if isinstance(c, Cls):
                return 'obj:' + c.qual
            if isinstance(c, str):
                return c if c.startswith('list:') else 'list:any' if c == 'list' else 'obj:' + c
        if l.op == 'tup':
            return 'any'
        return 'any'

    # ------------------------------------------------------------ builtin calls

    def call_builtin(self, st, name, args, kw, n):
        m = getattr(self, 'b_' + name.replace('.', '_'), None)
        if m is not None:
            if any(isinstance(a, tuple) for a in args) and name not in ('str.format', 'print', 'max', 'min', 'zip', 'zip_longest',
                                                                         'itertools.chain', 'itertools.zip_longest'):
                return self.opaque(n, 'starred argument of ' + name)
            return m(st, args, kw, n)
        parts = name.split('.')
        if len(parts) == 2 and args:
            t, mname = parts
            if t == 'str':
                return self.lift_eff(st, args[0], lambda s, x: self.m_str(s, mname, x, args[1:], kw, n))
            if t in ('list', 'set', 'array', 'iter', 'deque', 'frozenset'):
                return self.lift_eff(st, args[0], lambda s, x: self.m_list(s, mname, x, args[1:], kw, n) if self.is_listlike(x)
                                     else self.opaque(n, name))
            if t == 'tuple':
                return self.m_tuple(st, mname, args, n)
            if t == 'dict':
                return self.lift_eff(st, args[0], lambda s, x: self.m_dict(s, mname, x, args[1:], kw, n))
        if name.split('.')[0] in ('logging', 'logger'):
            return self.ext_logging(st, name, args, kw, n)
        from .interp import EXC
        if name in EXC:
            return mk('exc', name, tuple(a if a.op != 'ite' else mk('box', a) for a in args if not isinstance(a, tuple)))
        return self.ext_call(st, name, args, kw, n)

    def m_tuple(self, st, name, args, n):
        l = self.new_list(st, self.iter_seq(st, args[0], n), n)
        return self.m_list(st, name, l, args[1:], {}, n)

    def m_dict(self, st, name, x, args, kw, n):
        items = self.dict_items(st, x)
        if name == 'get':
            d = args[1] if len(args) > 1 else NONE
            return self.lift_eff(st, args[0], lambda s, k: self.dict_get(s, x, k, n, d))
        if name == 'values':
            return self.new_list(st, lift1(lambda q: self.map_items(q, 1), items), n)
        if name == 'keys':
            return self.new_list(st, lift1(lambda q: self.map_items(q, 0), items), n)
        if name in ('items', 'iteritems'):
            return self.new_list(st, lift1(lambda q: self.map_items(q, 2), items), n)
        if name == 'pop':
            k = args[0]
            v = self.dict_get(st, x, k, n, args[1] if len(args) > 1 else None)
            st.m[(x.args[0], '$items')] = lift1(lambda q: mk('seq', tuple(p for p in q.args[0] if not (
                p.op == 'e' and p.args[0].op == 'tup' and p.args[0].args[0][0] is k))), items)
            return v
        if name == 'copy':
            d = self.alloc(st, 'dict', n)
            st.m[(d.args[0], '$items')] = items
            return d
        if name == 'update':
            for a in args:
                for kk, vv in self.dict_const_items(st, a, n):
                    self.dict_set(st, x, kk, vv, n)
            for k, v in kw.items():
                self.dict_set(st, x, C(k), v, n)
            return NONE
        if name == 'setdefault':
            has = constrain(self.dict_has(st, x, args[0], n), st.pc)
            d = args[1] if len(args) > 1 else NONE

            def new(s):
                self.dict_set(s, x, args[0], d, n)
                return d
            return self.cond(st, has, lambda s: self.dict_get(s, x, args[0], n), new)
        if name == 'clear':
            st.m[(x.args[0], '$items')] = EMPTYSEQ
            return NONE
        return self.opaque(n, 'dict.' + name)

    def map_items(self, q, which):
        def f(t):
            if t.op != 'tup':
                return app('item', t, num(which))
            k, v = t.args[0]
            v = self.unbox(v)
            return k if which == 0 else v if which == 1 else lift1(lambda y: mk('tup', (k, y)), v)
        return self.map_seq(q, f)

    def b_len(self, st, args, kw, n):
        return self.lift_eff(st, args[0], lambda s, x: self.seqlen(s, x, n))

    def b_range(self, st, args, kw, n):
        args = [lift1(asnum, a) for a in args]
        lo, hi, step = num(0), None, num(1)
        if len(args) == 1:
            hi = args[0]
        else:
            lo, hi = args[0], args[1]
            if len(args) > 2:
                step = args[2]
        def g(l, h):
            if is_num_const(step) and num_val(step) == 1:
                cnt = padd(h, l, -1)
                if is_num_const(cnt) and 0 <= num_val(cnt) <= 64:
                    return seq(*[padd(l, num(k)) for k in range(int(num_val(cnt)))])
                neg_ = lt_zero(cnt)
                i = self.fresh_idx(cnt)
                return ite(neg_, EMPTYSEQ, fm(cnt, i, seq(padd(l, poly_of(i)))))
            if is_num_const(step) and num_val(step) == -1:
                cnt = padd(l, h, -1)
                if is_num_const(cnt) and num_val(cnt) <= 64:
                    return seq(*[padd(l, num(-k)) for k in range(max(0, int(num_val(cnt))))])
                i = self.fresh_idx(cnt)
                return ite(lt_zero(cnt), EMPTYSEQ, fm(cnt, i, seq(padd(l, poly_of(i), -1))))
            if all(is_num_const(z) for z in (l, h, step)):
                return seq(*[num(k) for k in range(int(num_val(l)), int(num_val(h)), int(num_val(step)))])
            b = app('seqof', app('range', l, h, step), 'int')
            return mk('seq', (mk('s', b, num(0), len_base(b)),))
        return self.new_list(st, constrain(lift2(g, lo, hi), st.pc), n)

    b_xrange = b_range

    def b_enumerate(self, st, args, kw, n):
        start = args[1] if len(args) > 1 else kw.get('start', num(0))
        sq = self.iter_seq(st, args[0], n)

        def g(q):
            pos = start
            out = []
            for p in q.args[0]:
                if p.op == 'e':
                    out.append(mk('e', lift1(lambda x: mk('tup', (pos, x)), p.args[0])))
                    pos = lift2(padd, pos, num(1))
                elif p.op == 's':
                    cnt = padd(p.args[2], p.args[1], -1)
                    i = self.fresh_idx(cnt)
                    e = self.part_elem(p, poly_of(i))
                    out += list(fm(cnt, i, seq(lift1(lambda x: mk('tup', (padd(pos, poly_of(i)), x)), e))).args[0])
                    pos = padd(pos, cnt)
                elif self.unit_fm(p):
                    e = lift1(lambda l: l.args[0][0].args[0], p.args[2])
                    out.append(mk('fm', p.args[0], p.args[1],
                                  lift1(lambda x: seq(mk('tup', (padd(pos, poly_of(p.args[1])), x))), e)))
                    pos = padd(pos, p.args[0])
                else:
                    # flattened: position inside is opaque
                    base = app('seqof', mk('seq', (p,)), self.kind_of_seq(mk('seq', (p,))))
                    cnt = lift1(seq_len, mk('seq', (p,)))
                    if cnt.op != 'p':
                        cnt = len_base(base)
                    i = self.fresh_idx(cnt)
                    e = at_base(base, poly_of(i))
                    out.append(mk('fm', cnt, i, seq(mk('tup', (padd(pos, poly_of(i)), e)))))
                    pos = padd(pos, cnt)
            return seq_parts(out)
        return self.new_list(st, lift1(g, sq), n)

    def b_zip(self, st, args, kw, n, longest=False):
        sqs = [self.iter_seq(st, a, n) for a in args]

        def g(*qs):
            if all(all(p.op == 'e' for p in q.args[0]) for q in qs):
                k = max(len(q.args[0]) for q in qs) if longest else min(len(q.args[0]) for q in qs)
                return seq(*[self.tup([q.args[0][i].args[0] if i < len(q.args[0]) else kw.get('fillvalue', NONE) for q in qs])
                             for i in range(k)])
            lens = [seq_len(q) for q in qs]
            lens = [l if l.op == 'p' else num_app('len', q) for l, q in zip(lens, qs)]
            r = lens[0]
            for l in lens[1:]:
                if longest:
                    r = lift1(lambda a: ite(lt_zero(padd(a, l, -1)), l, a), r)
                else:
                    r = lift1(lambda a: ite(lt_zero(padd(l, a, -1)), l, a), r)

            def mkseq(cnt):
                i = self.fresh_idx(cnt)
                vs = []
                for q, l in zip(qs, lens):
                    v = self.seq_get(None, q, poly_of(i), n)
                    if longest:
                        v = ite(lt_zero(padd(poly_of(i), l, -1)), v, kw.get('fillvalue', NONE))
                    vs.append(v)
                return fm(cnt, i, lift1(lambda t: seq(t), self.tup(vs)))
            return lift1(mkseq, r)
        return self.new_list(st, constrain(liftn(g, sqs), st.pc), n)

    def b_zip_longest(self, st, args, kw, n):
        return self.b_zip(st, args, kw, n, True)

    b_itertools_zip_longest = b_zip_longest
    b_itertools_izip = b_zip

    def b_itertools_chain(self, st, args, kw, n):
        r = EMPTYSEQ
        for a in args:
            r = concat(r, self.iter_seq(st, a, n))
        return self.new_list(st, r, n)

    def b_itertools_chain_from_iterable(self, st, args, kw, n):
        sq = self.iter_seq(st, args[0], n)

        def g(q):
            out = []
            for p in q.args[0]:
                if p.op == 'e':
                    out += list(self.iter_seq(st, p.args[0], n).args[0])
                elif p.op == 's':
                    cnt = padd(p.args[2], p.args[1], -1)
                    i = self.fresh_idx(cnt)
                    out += list(fm(cnt, i, self.iter_seq(st, self.part_elem(p, poly_of(i)), n)).args[0])
                else:
                    out += list(fm(p.args[0], p.args[1], lift1(g, p.args[2])).args[0])
            return seq_parts(out)
        return self.new_list(st, lift1(g, sq), n)

    def b_reversed(self, st, args, kw, n):
        return self.new_list(st, lift1(self.seq_rev, self.iter_seq(st, args[0], n)), n)

    def b_sorted(self, st, args, kw, n):
        return self.new_list(st, lift1(lambda q: self.sorted_seq(q, kw), self.iter_seq(st, args[0], n)), n)

    def b_list(self, st, args, kw, n):
        return self.new_list(st, self.iter_seq(st, args[0], n) if args else EMPTYSEQ, n)

    def b_iter(self, st, args, kw, n):
        return self.new_list(st, self.iter_seq(st, args[0], n), n)

    def b_set(self, st, args, kw, n):
        return self.new_list(st, self.iter_seq(st, args[0], n) if args else EMPTYSEQ, n, 'set')

    b_frozenset = b_set

    def b_collections_deque(self, st, args, kw, n):
        return self.new_list(st, self.iter_seq(st, args[0], n) if args else EMPTYSEQ, n)

    def b_array_array(self, st, args, kw, n):
        return self.new_list(st, self.iter_seq(st, args[1], n) if len(args) > 1 else EMPTYSEQ, n, 'array')

    def b_tuple(self, st, args, kw, n):
        if not args:
            return mk('tup', ())
        sq = self.iter_seq(st, args[0], n)

        def g(q):
            if all(p.op == 'e' for p in q.args[0]):
                return self.tup([p.args[0] for p in q.args[0]])
            return self.new_list(st, q, n)
        return lift1(g, sq)

    def b_dict(self, st, args, kw, n):
        d = self.alloc(st, 'dict', n)
        st.m[(d.args[0], '$items')] = EMPTYSEQ
        for a in args:
            for kk, vv in self.dict_const_items(st, a, n):
                self.dict_set(st, d, kk, vv, n)
        for k, v in kw.items():
            self.dict_set(st, d, C(k), v, n)
        return d

    def b_vars(self, st, args, kw, n):
        return lift1(lambda x: mk('ref', app('dictof', x.args[0])) if x.op == 'ref' else self.opaque(n, 'vars'), args[0])

    def b_isinstance(self, st, args, kw, n):
        def cls_names(c):
            if c.op == 'tup':
                return [z for y in c.args[0] for z in cls_names(y)]
            if c.op == 'cls':
                return [c.args[0]]
            return [c.args[0]] if c.op == 'bi' else ['?']
        cs = cls_names(args[1])

        def f(x):
            r = FALSE
            for c in cs:
                r = bor(r, self.isinst(x, c))
            return r
        return lift1(f, args[0])

    def isinst(self, x, c):
        if x.op == 'ref':
            k = self.class_of(x.args[0])
            if isinstance(k, Cls):
                return B(c in k.mro() or (isinstance(c, str) and c in k.base_names()) or c == 'object')
            if isinstance(k, str):
                return B(c == k.split(':')[0] or c == 'object')
            return lit(atom('isinst', x.args[0], c if isinstance(c, str) else c.name))
        if c == 'object':
            return TRUE
        if isstr(x):
            return B(c in ('str', 'basestring', 'unicode'))
        if x is TRUE or x is FALSE:
            return B(c in ('bool', 'int'))
        if x.op == 'p':
            if c in ('int', 'float', 'long'):
                if is_int(x) and c != 'float':
                    return TRUE
                return lit(atom('isinst', x, c))
            return FALSE
        if x is NONE:
            return FALSE
        if x.op == 'tup':
            return B(c == 'tuple')
        if x.op == 'cx':
            return B(c == 'complex')
        if x.op in ('sym', 'app'):
            return lit(atom('isinst', x, c if isinstance(c, str) else c.name))
        return FALSE

    def b_callable(self, st, args, kw, n):
        return lift1(lambda x: B(x.op in ('fn', 'bi', 'cls', 'bound', 'partial')) if x.op not in ('sym', 'app') else lit(atom('callable', x)), args[0])

    def b_hasattr(self, st, args, kw, n):
        def f(s, x):
            if x.op == 'ref':
                v = self.read(s, x.args[0], args[1].args[1])
                if v is not ABSENT:
                    return lift1(lambda l: B(l is not ABSENT), v)
                c = self.class_of(x.args[0])
                if isinstance(c, Cls):
                    return B(self.cls_attr(s, c, args[1].args[1])[0] is not None)
                return B(isinstance(c, str) and self.has_builtin_method(c.split(':')[0], args[1].args[1]))
            kind = tuple if x.op == 'tup' else str if isstr(x) else float if isnumlike(x) else type(None) if x is NONE else None
            if kind is not None and args[1].op == 'c':
                return B(hasattr(kind, args[1].args[1]))
            return lit(atom('hasattr', x, args[1]))
        return self.lift_eff(st, args[0], f)

    def b_getattr(self, st, args, kw, n):
        d = args[2] if len(args) > 2 else None

        def f(s, k):
            if k.op != 'c':
                return self.opaque(n, 'getattr')
            return self.getattr(s, args[0], k.args[1], n, d)
        return self.lift_eff(st, args[1], f)

    def b_setattr(self, st, args, kw, n):
        def f(s, k):
            if k.op != 'c':
                self.opaque(n, 'setattr')
                return NONE
            self.setattr(s, args[0], k.args[1], args[2], n)
            return NONE
        return self.lift_eff(st, args[1], f)

    def b_any(self, st, args, kw, n):
        sq = self.iter_seq(st, args[0], n)
        return lift1(lambda q: self.any_seq(st, q, n, False), sq)

    def b_all(self, st, args, kw, n):
        sq = self.iter_seq(st, args[0], n)
        return lift1(lambda q: bnot(self.any_seq(st, q, n, True)), sq)

    def any_seq(self, st, q, n, negate):
        r = FALSE
        for p in q.args[0]:
            if p.op == 'e':
                c = self.truth(st, p.args[0], n)
                r = bor(r, bnot(c) if negate else c)
            elif p.op == 's':
                cnt = padd(p.args[2], p.args[1], -1)
                i = self.fresh_idx(cnt)
                c = self.truth(st, self.part_elem(p, poly_of(i)), n)
                r = bor(r, any_(cnt, i, bnot(c) if negate else c))
            else:
                c = lift1(lambda b: self.any_seq(st, b, n, negate), p.args[2])
                r = bor(r, any_(p.args[0], p.args[1], c))
        return r

    def b_sum(self, st, args, kw, n):
        sq = self.iter_seq(st, args[0], n)
        start = args[1] if len(args) > 1 else num(0)
        if start.op == 'cx' or any(q.op == 'seq' and any(p.op == 'e' and any(l.op == 'cx' for l in leaves(p.args[0])) for p in q.args[0]) for q in leaves(sq)):
            def fold(q):
                if q.op != 'seq' or any(p.op != 'e' for p in q.args[0]):
                    return self.opaque(n, 'sum of complex numbers')
                r = start
                for p in q.args[0]:
                    r = lift2(lambda a, b: self.cx_bin(st, '+', a, b, n), r, p.args[0])
                return r
            return lift1(fold, sq)
        r = lift1(lambda q: self.sum_seq(st, q, n), sq)
        return lift2(lambda a, b: padd(asnum(a), asnum(b)), r, start)

    def sum_seq(self, st, q, n):
        r = num(0)
        for p in q.args[0]:
            if p.op == 'e':
                v = lift1(asnum, p.args[0])
            elif p.op == 's':
                cnt = padd(p.args[2], p.args[1], -1)
                i = self.fresh_idx(cnt)
                v = sum_(cnt, i, lift1(asnum, self.part_elem(p, poly_of(i))))
            else:
                v = sum_(p.args[0], p.args[1], lift1(lambda b: self.sum_seq(st, b, n), p.args[2]))
            r = lift2(padd, r, v)
        return r

    def minmax(self, st, args, kw, n, mx):
        nm = 'max' if mx else 'min'
        if len(args) == 1 and not isinstance(args[0], tuple):
            sq = self.iter_seq(st, args[0], n)

            def g(s, q):
                if q.args[0] and all(p.op == 'e' for p in q.args[0]) and not kw:
                    return self.minmax_vals(s, [p.args[0] for p in q.args[0]], n, mx)
                if not q.args[0]:
                    if 'default' in kw:
                        return kw['default']
                    self.raise_(s, TRUE, 'ValueError', n, '%s of an empty sequence' % nm)
                    return self.opaque(n, nm, quiet=True)
                ln = seq_len(q)
                if 'default' not in kw and ln.op == 'p':
                    self.raise_(s, constrain(eq_zero(ln), s.pc), 'ValueError', n, '%s of an empty sequence' % nm)
                v = num_app(nm, q)
                if 'default' in kw:
                    return ite(lift1(eq_zero, ln), kw['default'], v)
                return v
            return self.lift_eff(st, sq, g)
        vals = []
        for a in args:
            if isinstance(a, tuple):
                if a[1].op == 'seq' and all(p.op == 'e' for p in a[1].args[0]):
                    vals += [p.args[0] for p in a[1].args[0]]
                else:
                    return num_app(nm, a[1])
            else:
                vals.append(a)
        return self.minmax_vals(st, vals, n, mx)

    def minmax_vals(self, st, vals, n, mx):
        if len(vals) > 4 and all(isnumlike(l) for v in vals for l in leaves(v)) and not all(is_num_const(v) for v in vals):
            return num_app('maxof' if mx else 'minof', *[lift1(asnum, v) for v in vals])
        r = vals[0]
        for v in vals[1:]:
            c = self.less(st, r, v, n) if mx else self.less(st, v, r, n)
            r = ite(c, v, r)
        return r

    def b_max(self, st, args, kw, n):
        return self.minmax(st, args, kw, n, True)

    def b_min(self, st, args, kw, n):
        return self.minmax(st, args, kw, n, False)

    def b_next(self, st, args, kw, n):
        d = args[1] if len(args) > 1 else None

        def f(s, x):
            m = self.find_method(s, x, '__next__') or self.find_method(s, x, 'next')
            if m is not None:
                return self.call(s, m, [], {}, n)
            if x.op == 'ref' and self.is_listlike(x):
                return self.lift_eff(s, self.content(s, x), lambda s2, q: self.seq_first(s2, x, q, d, n))
            return self.opaque(n, 'next')
        return self.lift_eff(st, args[0], f)

    def seq_first(self, st, x, q, d, n):
        parts = q.args[0]
        if not parts:
            if d is not None:
                return d
            self.raise_(st, TRUE, 'StopIteration', n, 'next')
            return self.opaque(n, 'next', quiet=True)
        p = parts[0]
        rest = mk('seq', tuple(parts[1:]))
        if p.op == 'e':
            self.set_content(st, x, rest, n)
            return p.args[0]
        if p.op == 's':
            cnt, i, c = padd(p.args[2], p.args[1], -1), None, TRUE
            has = bnot(lt_zero(padd(cnt, num(-1))))
            v = self.part_elem(p, num(0))
            after = seq_parts([mk('s', p.args[0], padd(p.args[1], num(1)), p.args[2])] + list(parts[1:]))
        else:
            cnt, i, body = p.args
            c = lift1(lambda b: B(bool(b.args[0])), body)
            if not all(len(b.args[0]) <= 1 for b in leaves(body)):
                return self.opaque(n, 'next of nested')
            has = any_(cnt, i, c)
            k = self.first_idx(cnt, i, c)
            v = subst(constrain(lift1(lambda b: b.args[0][0].args[0] if b.args[0] else NONE, body), c), {i: k}) if c is not FALSE else NONE
            v = lift1(lambda l: l, v)
            after = mk('seq', (mk('s', app('seqof', app('afterfirst', q), 'any'), num(0), len_base(app('seqof', app('afterfirst', q), 'any'))),))
        has = constrain(has, st.pc)

        def yes(s):
            self.set_content(s, x, after, n)
            return v
        return self.cond(st, has, yes, lambda s: self.seq_first(s, x, rest, d, n))

    def b_abs(self, st, args, kw, n):
        def f(s, x):
            if isnumlike(x):
                return self.absolute(asnum(x))
            if x.op == 'cx':
                return self.sqrt(padd(pmul(x.args[0], x.args[0]), pmul(x.args[1], x.args[1])))
            m = self.find_method(s, x, '__abs__')
            if m is not None:
                return self.call(s, m, [], {}, n)
            if x is NONE or isstr(x):
                self.raise_(s, TRUE, 'TypeError', n, 'abs')
                return num(0)
            p = poly_of(x)
            return self.absolute(poly_of(x))
        return self.lift_eff(st, args[0], f)

    b_math_fabs = b_abs

    def numfun(self, st, args, n, name, k=1):
        def f(*ls):
            if any(l is NONE or isstr(l) for l in ls):
                return mk('undef')
            return num_app(name, *[asnum(l) for l in ls])
        r = liftn(f, list(args[:k]))
        if r is UNDEF or (r.op == 'ite' and UNDEF in leaves(r)):
            self.raise_(st, constrain(lift1(lambda l: B(l is UNDEF), r), st.pc), 'TypeError', n, name)
            r = lift1(lambda l: num(0) if l is UNDEF else l, r)
        return r

    def b_math_sqrt(self, st, args, kw, n):
        return self.lift_eff(st, args[0], lambda s, x: self.sqrt(asnum(x)))

    def b_math_hypot(self, st, args, kw, n):
        return lift2(lambda a, b: self.sqrt(padd(pmul(asnum(a), asnum(a)), pmul(asnum(b), asnum(b)))), args[0], args[1])

    def b_math_sin(self, st, args, kw, n):
        return self.numfun(st, args, n, 'sin')

    def b_math_cos(self, st, args, kw, n):
        return self.numfun(st, args, n, 'cos')

    def b_math_atan2(self, st, args, kw, n):
        return self.numfun(st, args, n, 'atan2', 2)

    def b_cmath_phase(self, st, args, kw, n):
        def f(x):
            if x.op == 'cx':
                return num_app('atan2', x.args[1], x.args[0])
            return num_app('phase', x)
        return lift1(f, args[0])

    def b_math_floor(self, st, args, kw, n):
        return lift1(lambda x: asnum(x) if is_int(asnum(x)) else num_app('floor', asnum(x)), args[0])

    def b_math_ceil(self, st, args, kw, n):
        return lift1(lambda x: asnum(x) if is_int(asnum(x)) else neg(num_app('floor', neg(asnum(x)))), args[0])

    def b_math_isinf(self, st, args, kw, n):
        return lift1(lambda x: self.isinf(asnum(x)), args[0])

    def isinf(self, p):
        if is_inf(p) is not None:
            return TRUE
        return FALSE            # arithmetic over the reals

    def b_math_isnan(self, st, args, kw, n):
        return FALSE

    def b_math_pow(self, st, args, kw, n):
        return self.binop(st, '**', args[0], args[1], n)

    b_pow = b_math_pow

    def b_divmod(self, st, args, kw, n):
        return self.tup([self.binop(st, '//', args[0], args[1], n), self.binop(st, '%', args[0], args[1], n)])

    def b_operator_truediv(self, st, args, kw, n):
        return self.binop(st, '/', args[0], args[1], n)

    b_operator_div = b_operator_truediv

    def b_round(self, st, args, kw, n):
        d = args[1] if len(args) > 1 else num(0)

        def f(s, x, k):
            if x is NONE or isstr(x):
                self.raise_(s, TRUE, 'TypeError', n, 'round of %s' % show(x))
                return num(0)
            p = asnum(x)
            if is_num_const(p) and k.op == 'p' and is_num_const(k):
                from fractions import Fraction as F
                return num(F(round(num_val(p), int(num_val(k)))))
            if k is NONE or k.op != 'p':
                k = num(0)
            return round_(p, k)
        return self.lift_eff2(st, args[0], d, f)

    def b_float(self, st, args, kw, n):
        if not args:
            return num(0)

        def f(s, x):
            if isnumlike(x):
                return asnum(x)
            if x.op == 'c' and isinstance(x.args[1], str):
                try:
                    return num(float(x.args[1]))
                except ValueError:
                    self.raise_(s, TRUE, 'ValueError', n, 'float of %r' % x.args[1])
                    return num(0)
            if isstr(x):
                rt = rep_text(x)
                ok = constrain(lit(atom('float_ok', x)), s.pc) if rt is None else B(alg._float_ok(rt[0]))
                self.raise_(s, bnot(ok), 'ValueError', n, 'float(%s)' % show(x))
                return num_app('float', x)
            if x is NONE:
                self.raise_(s, TRUE, 'TypeError', n, 'float(None)')
                return num(0)
            if x.op == 'ref':
                m = self.find_method(s, x, '__float__')
                if m is not None:
                    return self.call(s, m, [], {}, n)
            if x.op in ('sym', 'app'):
                return poly_of(x)
            return asnum(self.opaque(n, 'float'))
        return self.lift_eff(st, args[0], f)

    def b_decimal_Decimal(self, st, args, kw, n):
        return self.b_float(st, args, kw, n)

    def b_int(self, st, args, kw, n):
        if not args:
            return num(0)

        def f(s, x):
            if isnumlike(x):
                p = asnum(x)
                if is_num_const(p):
                    return num(int(num_val(p)))
                return p if is_int(p) else num_app('int', p)
            if x.op == 'c' and isinstance(x.args[1], str):
                try:
                    return num(int(x.args[1]))
                except ValueError:
                    self.raise_(s, TRUE, 'ValueError', n, 'int of %r' % x.args[1])
                    return num(0)
            if isstr(x):
                rt = rep_text(x)
                ok = constrain(lit(atom('int_ok', x)), s.pc) if rt is None else B(alg._int_ok(rt[0]))
                self.raise_(s, bnot(ok), 'ValueError', n, 'int(%s)' % show(x))
                return num_app('int', x)
            if x is NONE:
                self.raise_(s, TRUE, 'TypeError', n, 'int(None)')
                return num(0)
            return num_app('int', x)
        return self.lift_eff(st, args[0], f)

    def b_bool(self, st, args, kw, n):
        return self.truth(st, args[0], n) if args else FALSE

    def b_str(self, st, args, kw, n):
        if not args:
            return C('')
        if len(args) > 1 or kw:
            return lift1(lambda x: app('decode', x), args[0])
        return self.str_of(st, args[0], n)

    def b_repr(self, st, args, kw, n):
        return lift1(lambda x: app('repr', x), args[0])

    def b_format(self, st, args, kw, n):
        return self.fmt_term(st, args[0], args[1] if len(args) > 1 else C(''), '', n)

    def b_complex(self, st, args, kw, n):
        a = args[0] if args else kw.get('real', num(0))
        b = args[1] if len(args) > 1 else kw.get('imag', num(0))

        def f(s, x, y):
            if x is NONE or y is NONE:
                self.raise_(s, TRUE, 'TypeError', n, 'complex(None)')
                return mk('cx', num(0), num(0))
            if x.op == 'cx' and is_num_const(asnum(y)) and num_val(asnum(y)) == 0:
                return x
            return mk('cx', asnum(x), asnum(y))
        return self.lift_eff2(st, a, b, f)

    def b_complex_conjugate(self, st, args, kw, n):
        return lift1(lambda x: mk('cx', x.args[0], neg(x.args[1])), args[0])

    def b_object(self, st, args, kw, n):
        return self.alloc(st, 'object', n)

    def b_object___init__(self, st, args, kw, n):
        return NONE

    def b_object___new__(self, st, args, kw, n):
        def f(s, x):
            if x.op == 'cls':
                return self.alloc(s, x.args[0], n)
            return self.opaque(n, 'object.__new__')
        return self.lift_eff(st, args[0], f)

    def b_property(self, st, args, kw, n):
        return mk('prop', args[0] if args else kw.get('fget', NONE), args[1] if len(args) > 1 else kw.get('fset', NONE))

    def b_staticmethod(self, st, args, kw, n):
        args[0].args[0].kind = 'static'
        return args[0]

    def b_classmethod(self, st, args, kw, n):
        args[0].args[0].kind = 'class'
        return args[0]

    def b_map(self, st, args, kw, n):
        sq = self.iter_seq(st, args[1], n)
        lst = None
        t = ast.parse('[__f(__x) for __x in __l]', mode='eval').body
        return self.comp_call(st, t, {'__f': args[0], '__l': self.new_list(st, sq, n)}, n)

    def b_filter(self, st, args, kw, n):
        src = '[__x for __x in __l if __x]' if args[0] is NONE else '[__x for __x in __l if __f(__x)]'
        t = ast.parse(src, mode='eval').body
        return self.comp_call(st, t, {'__f': args[0], '__l': args[1]}, n)

    def comp_call(self, st, t, env, n):
        for x in ast.walk(t):
            if hasattr(x, 'lineno'):
                x.lineno = getattr(n, 'lineno', 0)
        fr = Frame(self.frames[-1].func, self.frames[-1].module, None, self.frames[-1])
        fr.locals_ = set(env)
        for k, v in env.items():
            st.m[(fr.term, k)] = v
        self.frames.append(fr)
        try:
            r = self.expr(t, st)
        finally:
            self.frames.pop()
        for k in env:
            st.m.pop((fr.term, k), None)
        return r

    def b_functools_partial(self, st, args, kw, n):
        return mk('partial', args[0], tuple(args[1:]), ) if not kw else self.opaque(n, 'partial')

    def b_id(self, st, args, kw, n):
        return lift1(lambda x: num_app('id', x), args[0])

    def b_type(self, st, args, kw, n):
        def f(x):
            if x.op == 'ref':
                c = self.class_of(x.args[0])
                if isinstance(c, Cls):
                    return mk('cls', c)
                return BI(str(c))
            return BI('str') if isstr(x) else BI('float') if x.op == 'p' else app('type', x)
        return lift1(f, args[0])

    def b_chr(self, st, args, kw, n):
        return lift1(lambda x: C(chr(int(num_val(x)))) if x.op == 'p' and is_num_const(x) and 0 <= num_val(x) < 1114112 else mk('sym', app('chr', x), 'str'), args[0])

    def b_ord(self, st, args, kw, n):
        return lift1(lambda x: num(ord(x.args[1])) if x.op == 'c' and isinstance(x.args[1], str) and len(x.args[1]) == 1 else num_app('ord', x), args[0])

    def b_hash(self, st, args, kw, n):
        return lift1(lambda x: num_app('hash', x), args[0])

    def b_open(self, st, args, kw, n):
        mode = args[1] if len(args) > 1 else kw.get('mode', C('r'))
        self.event(st, 'open', args[0], mode)
        f = liftn(lambda a, m: mk('ref', mk('sym', app('open', a, m), 'obj', 'file')), [args[0], mode])
        return f

    b_io_open = b_open

    def b_print(self, st, args, kw, n):
        f = kw.get('file', NONE)
        f = lift1(lambda x: STDOUT if x is NONE else x, f)
        sep, end = kw.get('sep', C(' ')), kw.get('end', C('\n'))
        parts = []
        for a in args:
            if isinstance(a, tuple):
                self.opaque(n, 'starred print')
                continue
            if parts:
                parts.append(sep)
            parts.append(self.str_of(st, a, n))
        parts.append(end)
        self.file_write(st, f, strcat(parts), n)
        return NONE

    def file_write(self, st, f, text, n):
        def g(s, x):
            if x.op == 'ref':
                m = self.find_method(s, x, 'write')
                if m is not None:
                    self.call(s, m, [text], {}, n)
                    return NONE
            self.event(s, 'write', x, text)
            return NONE
        self.lift_eff(st, f, g)

    def event(self, st, *vals):
        from .interp import WORLD
        k = (WORLD, '$ev')
        vs = [C(v) if isinstance(v, str) else v for v in vals]
        t = self.tup([v if v.op != 'ite' or len(leaves(v)) <= 8 else mk('box', v) for v in vs])
        st.m[k] = concat(st.m.get(k, EMPTYSEQ), lift1(lambda x: seq(x), t))

    # ------------------------------------------------------------ external modules

    def ext_attr(self, st, x, name, n):
        if x.op == 'bi':
            full = x.args[0] + '.' + name
            c = {'math.pi': self.pi, 'cmath.pi': self.pi, 'math.inf': INF, 'sys.stdout': STDOUT, 'sys.stdin': STDIN, 'sys.stderr': STDERR,
                 'sys.maxsize': num_app('maxsize'), 'math.e': num_app('e')}.get(full)
            if c is not None:
                return c
            if full == 'logging.root':
                return mk('ref', LOGROOT)
            if full.startswith('logging.') and full[8:] in LEVELS:
                return num(LEVELS[full[8:]])
            if full == 'sys.argv':
                b = app('seqof', app('argv'), 'str')
                return mk('ref', mk('sym', 'sys.argv', 'obj', 'list:str'))
            if full == 'sys.version_info':
                return mk('tup', (num(3), num(12), num(3)))
            return BI(full)
        if x.op == 're':
            return mk('bound', BI('re.P.' + name), x)
        if x.op == 'rematch' or x.op == 'app' and x.args[0] == 'match':
            return mk('bound', BI('re.M.' + name), x)
        if x.op in ('sym', 'app'):
            if name == 'write':
                return mk('bound', BI('file.write'), x)
            return app('attr', x, name)
        return self.opaque(n, 'attribute ' + name)

    def ext_index(self, st, x, k, n):
        if x.op == 'rematch' or x.op == 'app' and x.args[0] == 'match':
            return self.b_re_M_group(st, [x, k], {}, n)
        if x.op in ('sym', 'app'):
            return lift1(lambda i: app('index', x, i), k)
        return self.opaque(n, 'subscript of ' + x.op)

    def ext_obj_attr(self, st, x, b, name, n):
        """attribute of an object of an external class"""
        if b == 'file':
            if name == 'name':
                return app('attr', x.args[0], 'name') if False else mk('sym', app('attr', x.args[0], 'name'), 'str')
            return mk('bound', BI('file.' + name), x)
        if b in ('ArgumentParser', 'ArgGroup'):
            return mk('bound', BI('argparse.P.' + name), x)
        if b == 'Logger':
            return mk('bound', BI('logging.L.' + name), x)
        if b == 'StringIO':
            return mk('bound', BI('StringIO.' + name), x)
        if b == 're':
            return mk('bound', BI('re.P.' + name), x)
        if b in ('Namespace', 'object', 'sysmod'):
            return None
        if b == 'ext':
            return mk('bound', BI('extobj.' + name), x)
        return None

    def b_file_write(self, st, args, kw, n):
        self.lift_eff(st, args[0], lambda s, x: self.event(s, 'write', x, args[1]) or NONE)
        return NONE

    def b_file_writelines(self, st, args, kw, n):
        sq = self.iter_seq(st, args[1], n)
        from .interp import WORLD
        k = (WORLD, '$ev')
        ev = lift1(lambda q: self.map_seq(q, lambda x: mk('tup', (C('write'), args[0], x))), sq)
        st.m[k] = concat(st.m.get(k, EMPTYSEQ), ev)
        return NONE

    def b_file_readlines(self, st, args, kw, n):
        def f(s, x):
            self.event(s, 'read', x)
            return self.new_list(s, self.file_lines(s, x), n)
        return self.lift_eff(st, args[0], f)

    def b_file_read(self, st, args, kw, n):
        def f(s, x):
            self.event(s, 'read', x)
            return app('readstr', x.args[0])
        return self.lift_eff(st, args[0], f)

    def b_file_close(self, st, args, kw, n):
        return NONE

    def b_file_flush(self, st, args, kw, n):
        return NONE

    def b_file___enter__(self, st, args, kw, n):
        return args[0]

    def mk_stringio(self, st, args, kw, n):
        r = self.alloc(st, 'StringIO', n)
        st.m[(r.args[0], '$buf')] = seq(*args) if args else EMPTYSEQ
        return r

    b_io_StringIO = mk_stringio
    b_StringIO_StringIO = mk_stringio
    b_cStringIO_StringIO = mk_stringio
    b_io_BytesIO = mk_stringio

    def b_StringIO_write(self, st, args, kw, n):
        def f(s, x):
            self.event(s, 'write', x, args[1])
            return NONE
        return self.lift_eff(st, args[0], f)

    def b_StringIO_getvalue(self, st, args, kw, n):
        from .interp import WORLD
        ev = st.m.get((WORLD, '$ev'), EMPTYSEQ)

        def f(x):
            def text(q):
                parts = []
                b = st.m.get((x.args[0], '$buf'), EMPTYSEQ)
                if b.op != 'seq' or any(p.op != 'e' for p in b.args[0]):
                    return app('getvalue', x.args[0], q)
                parts += [p.args[0] for p in b.args[0]]
                for p in q.args[0]:
                    if p.op != 'e' or p.args[0].op != 'tup':
                        if x.args[0] in syms(p) or x in syms(p):
                            return app('getvalue', x.args[0], q)
                        continue
                    r = p.args[0].args[0]
                    if r[0] is C('write') and r[1] is x:
                        parts.append(r[2].args[0] if r[2].op == 'box' else r[2])
                return strcat(parts)
            return lift1(text, ev)
        return lift1(f, args[0])

    def b_StringIO_close(self, st, args, kw, n):
        return NONE

    b_StringIO_flush = b_StringIO_seek = b_StringIO_close

    def b_StringIO___enter__(self, st, args, kw, n):
        return args[0]

    def b_sys_exit(self, st, args, kw, n):
        from .ex import Raise
        self.pend.append((st.pc, 'SystemExit', NONE, State(dict(st.m), st.pc)))
        raise Raise()

    def ext_logging(self, st, name, args, kw, n):
        last = name.split('.')[-1]
        root = mk('ref', LOGROOT)
        if last in ('getLogger',):
            if not args and not kw or args and args[0] in (NONE, C(''), C('root')):
                return root
            return mk('ref', mk('sym', 'logger', 'obj', 'Logger'))
        key = (LOGROOT, '$level')
        lv = None
        if last == 'setLevel' and (name.startswith('logging.root.') or args and args[0] is root):
            lv = args[-1] if args else kw.get('level')
        elif last == 'basicConfig':
            lv = kw.get('level')
            out = kw.get('stream')
            if out is STDOUT:       # messages among the results
                self.event(st, 'write', STDOUT, mk('sym', 'messages', 'str'))
        if lv is not None and key in st.m:
            old = st.m[key]
            st.m[key] = lift1(lambda x: old if x is NONE and last == 'basicConfig' else num(LEVELS[x.args[1]]) if x.op == 'c' and x.args[1] in LEVELS else x, lv)
        if last in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log', 'setLevel', 'basicConfig', 'addHandler'):
            return NONE
        return NONE if not args else app('ext', name)

    def b_re_compile(self, st, args, kw, n):
        fl = args[1] if len(args) > 1 else kw.get('flags', num(0))
        return lift1(lambda p: mk('re', p, fl), args[0])

    def re_fold(self, kind, pat, flags, text):
        import re
        import warnings
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = re.compile(pat, flags)
            return getattr(r, kind)(text)
        except re.error:
            return None

    def re_digits(self, st, kind, pat, flags, x, n):
        """findall on a text of constants and runs of digits, when the pattern does not tell digits apart"""
        import re
        import warnings
        r = rep_text(x)
        if r is None and x.op == 'c' and isinstance(x.args[1], str) and kind != 'findall':
            r = x.args[1], [(0, len(x.args[1]), x)]
        if r is None or kind not in ('findall', 'match', 'search', 'fullmatch'):
            return None
        rep, spans = r
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                q = re.compile(pat, flags)
            except re.error:
                return None
            if x.op != 'c' and not digit_uniform(pat, flags):
                return None
        if kind != 'findall':
            m = getattr(q, kind)(rep)
            if m is None:
                return NONE
            names = tuple(sorted(q.groupindex.items()))
            return mk('rematch', tuple(rep_slice(spans, rep, m.start(g), m.end(g)) if m.start(g) >= 0 else NONE for g in range(q.groups + 1)), names)
        out = []
        for m in q.finditer(rep):
            if q.groups < 2:
                g = q.groups
                out.append(rep_slice(spans, rep, m.start(g), m.end(g)) if m.start(g) >= 0 else C(''))
            else:
                out.append(mk('tup', tuple(rep_slice(spans, rep, m.start(g), m.end(g)) if m.start(g) >= 0 else C('')
                                           for g in range(1, q.groups + 1))))
        return self.new_list(st, seq(*out), n)

    def re_call(self, st, kind, args, n):
        pat, s = args[0], args[1]
        if pat.op != 're':
            pat = mk('re', pat, num(0))

        def f(s_, p, x):
            if self.re_hook is not None:
                r = self.re_hook(self, s_, kind, p, x, n)
                if r is not None:
                    return r
            if x.op == 'c' and p.args[0].op == 'c' and is_num_const(p.args[1]) and kind in ('findall', 'split'):
                r = self.re_fold(kind, p.args[0].args[1], int(num_val(p.args[1])), x.args[1])
                if r is not None:
                    es = [C(y) if isinstance(y, str) else NONE if y is None else mk('tup', tuple(C(z) for z in y)) for y in r]
                    return self.new_list(s_, seq(*es), n)
            if p.args[0].op == 'c' and is_num_const(p.args[1]) and kind in ('findall', 'split', 'sub', 'match', 'search', 'fullmatch'):
                r = self.re_digits(s_, kind, p.args[0].args[1], int(num_val(p.args[1])), x, n)
                if r is not None:
                    return r
            if kind in ('match', 'search', 'fullmatch'):
                return app('match', kind, p, x)
            if kind in ('findall', 'split'):
                ek = 'any'
                if kind == 'findall' and p.args[0].op == 'c':
                    import re
                    import warnings
                    try:
                        with warnings.catch_warnings():
                            warnings.simplefilter('ignore')
                            g = re.compile(p.args[0].args[1]).groups
                        ek = 'str' if g < 2 else 'strs:%d' % g
                    except re.error:
                        pass
                b = app('seqof', app(kind, p, x), ek)
                return self.new_list(s_, mk('seq', (mk('s', b, num(0), len_base(b)),)), n)
            if kind == 'finditer':
                b = app('seqof', app(kind, p, x), 'any')
                return self.new_list(s_, mk('seq', (mk('s', b, num(0), len_base(b)),)), n)
            return app('replace', C(kind), p, x)
        return self.lift_eff2(st, pat, s, f)

    def b_re_match(self, st, args, kw, n):
        return self.re_call(st, 'match', args, n)

    def b_re_search(self, st, args, kw, n):
        return self.re_call(st, 'search', args, n)

    def b_re_findall(self, st, args, kw, n):
        return self.re_call(st, 'findall', args, n)

    b_re_P_match = b_re_match
    b_re_P_search = b_re_search
    b_re_P_findall = b_re_findall

    def b_re_P_sub(self, st, args, kw, n):
        return lift1(lambda x: app('replace', C('re.sub'), args[0], x), args[2])

    def b_re_P_finditer(self, st, args, kw, n):
        return self.re_call(st, 'finditer', args, n)

    def b_re_M_group(self, st, args, kw, n):
        def pick(m, k):
            if m.op != 'rematch':
                return app('group', m, k)
            i = dict(m.args[1]).get(k.args[1]) if k.op == 'c' and isinstance(k.args[1], str) else int(num_val(k)) if k.op == 'p' and is_num_const(k) else None
            if i is None or not 0 <= i < len(m.args[0]):
                self.raise_(st, TRUE, 'IndexError', n, 'no such group')
                return self.opaque(n, 'group', quiet=True)
            return m.args[0][i]
        ks = [lift2(pick, args[0], k) for k in (args[1:] or [num(0)])]
        return ks[0] if len(ks) == 1 else self.tup(ks)

    def b_re_M_groups(self, st, args, kw, n):
        if args[0].op == 'rematch':
            return mk('tup', args[0].args[0][1:])
        return self.opaque(n, 'groups')

    def b_base64_b64decode(self, st, args, kw, n):
        return lift1(lambda x: app('b64decode', x), args[0])

    b_base64_standard_b64decode = b_base64_b64decode

    def b_zlib_decompress(self, st, args, kw, n):
        return lift1(lambda x: app('decompress', x), args[0])

    def b_datetime_timedelta(self, st, args, kw, n):
        v = kw.get('seconds', args[1] if len(args) > 1 else num(0))
        g = lift1(lambda x: lit(atom('td_overflow', x)), v)
        self.raise_(st, constrain(g, st.pc), 'OverflowError', n, 'timedelta')
        return lift1(lambda x: app('timedelta', x), v)

    def fields_of(self, s, t):
        """names of what is known to be in an object"""
        out = []
        for m in (s.m, self.static):
            for kk in m:
                if len(kk) == 2 and kk[0] is t and isinstance(kk[1], str) and kk[1] != '$new' and kk[1] not in out:
                    out.append(kk[1])
        for k in self.schema_of(self.class_of(t)) or ():
            if not k.startswith('$') and k not in out:
                out.append(k)
        return out

    def b_copy_copy(self, st, args, kw, n):
        def f(s, x):
            if x.op != 'ref':
                return x
            r = self.alloc(s, self.class_of(x.args[0]), n)
            if self.is_listlike(x):
                s.m[(r.args[0], '$seq')] = self.content(s, x)
            for k in self.fields_of(s, x.args[0]):
                v = self.read(s, x.args[0], k)
                if v is not ABSENT and v is not UNDEF:
                    s.m[(r.args[0], k)] = v
            return r
        return self.lift_eff(st, args[0], f)

    def b_copy_deepcopy(self, st, args, kw, n):
        memo = {}

        def val(s, v, d):
            return self.lift_eff(s, v, lambda s2, x: one(s2, x, d))

        def part(s, p, d):
            if p.op == 'e':
                return mk('e', val(s, p.args[0], d))
            return None

        def one(s, x, d):
            if x.op == 'box':
                return mk('box', val(s, x.args[0], d))
            if x.op == 'tup':
                return mk('tup', tuple(val(s, y, d) for y in x.args[0]))
            if x.op == 'seq':
                ps = [part(s, p, d) for p in x.args[0]]
                return mk('seq', tuple(ps)) if all(p is not None for p in ps) else self.opaque(n, 'deepcopy')
            if x.op != 'ref':
                return x
            if x in memo:
                return memo[x]
            if d > 6 or self.class_of(x.args[0]) is None:
                return self.opaque(n, 'deepcopy')
            r = memo[x] = self.alloc(s, self.class_of(x.args[0]), n)
            if self.is_listlike(x):
                s.m[(r.args[0], '$seq')] = val(s, self.content(s, x), d + 1)
            for k in self.fields_of(s, x.args[0]):
                v = self.read(s, x.args[0], k)
                if k != '$seq' and v is not ABSENT and v is not UNDEF:
                    s.m[(r.args[0], k)] = val(s, v, d + 1)
            return r
        return val(st, args[0], 0)

    # ------------------------------------------------------------ argparse

    def b_argparse_ArgumentParser(self, st, args, kw, n):
        r = self.alloc(st, 'ArgumentParser', n)
        st.m[(r.args[0], '$specs')] = EMPTYSEQ
        return r

    def b_argparse_FileType(self, st, args, kw, n):
        return mk('ftype', args[0] if args else C('r'))

    def b_argparse_P_add_argument_group(self, st, args, kw, n):
        return args[0]

    b_argparse_P_add_mutually_exclusive_group = b_argparse_P_add_argument_group

    def b_argparse_P_add_argument(self, st, args, kw, n):
        p = args[0]
        names = [a.args[1] for a in args[1:] if a.op == 'c']
        spec = mk('spec', tuple(names), tuple(sorted(((k, v) for k, v in kw.items()), key=lambda x: x[0])))
        self.argspecs.append((names, kw, self.site(n)))
        k = (p.args[0], '$specs')
        st.m[k] = concat(st.m.get(k, EMPTYSEQ), seq(spec))
        return NONE

    def b_argparse_P_set_defaults(self, st, args, kw, n):
        self.opaque(n, 'set_defaults')
        return NONE

    def b_argparse_P_parse_args(self, st, args, kw, n):
        r = self.alloc(st, 'Namespace', n)
        sq = st.m.get((args[0].args[0], '$specs'), EMPTYSEQ)
        for p in sq.args[0]:
            names, kws = p.args[0].args
            kw2 = dict(kws)
            dest = kw2['dest'].args[1] if 'dest' in kw2 else None
            pos = not names[0].startswith('-')
            if dest is None:
                longs = [x for x in names if x.startswith('--')]
                dest = (longs[0] if longs else names[0]).lstrip('-').replace('-', '_')
            st.m[(r.args[0], dest)] = self.arg_value(dest, pos, kw2, n)
        return r

    def arg_value(self, dest, pos, kw, n):
        nm = 'arg:' + dest
        act = kw.get('action')
        act = act.args[1] if act is not None and act.op == 'c' else None
        dflt = kw.get('default')
        given = lit(atom('given', nm))
        if act == 'count':
            base = dflt if dflt is not None else NONE
            cnt = mk('sym', nm + ':count', 'int', 'pos')
            v = lift1(lambda d: padd(asnum(d) if d is not NONE else num(0), poly_of(cnt)), base)
            return ite(given, v, base)
        if act == 'store_true':
            return given
        if act == 'store_const':
            return ite(given, kw.get('const', NONE), dflt if dflt is not None else NONE)
        if act == 'store_false':
            return bnot(given)
        t = kw.get('type')
        if t is None:
            v = mk('sym', nm, 'str')
        elif t.op == 'ftype':
            v = mk('ref', mk('sym', nm, 'obj', 'file', t.args[0]))
        elif t.op == 'bi' and t.args[0] == 'float':
            v = poly_of(sym(nm, 'num'))
        elif t.op == 'bi' and t.args[0] == 'int':
            v = poly_of(sym(nm, 'int'))
        elif t.op == 'bi' and t.args[0] == 'str':
            v = mk('sym', nm, 'str')
        else:
            v = app('conv', t, sym(nm, 'any'))
        nargs = kw.get('nargs')
        na = nargs.args[1] if nargs is not None and nargs.op == 'c' else None
        if nargs is not None and na != '?':
            v = mk('ref', mk('sym', nm, 'obj', 'list:any'))
        if pos and na != '?':
            return v
        if dflt is None:
            dflt = NONE
        req = kw.get('required')
        if req is TRUE:
            return v
        return ite(given, v, dflt)

    # ------------------------------------------------------------ everything else

    PURE = ('os.path.', 'time.', 'string.', 'operator.', 'locale.', 'platform.')

    def ext_call(self, st, name, args, kw, n):
        h = self.ext_hooks.get(name)
        if h is not None:
            return h(self, st, args, kw, n)
        if name.startswith('extobj.'):
            return app('ext', name, *[a for a in args if isinstance(a, N) and a.op != 'ite'])
        if name in ('sys.path.append', 'sys.path.insert', 'sys.path.extend', 'warnings.simplefilter', 'warnings.filterwarnings'):
            return NONE
        if name.startswith(self.PURE):
            return app('ext', name, *[a for a in args if isinstance(a, N) and a.op != 'ite'])
        self.event(st, 'ext', name)
        return self.opaque(n, 'call of ' + name)
