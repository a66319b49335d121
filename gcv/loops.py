"""Loops: known spines are unrolled, unknown stretches are summarised by one generic iteration."""
import ast

from .alg import *
from . import alg
from .state import *
from .ev import isstr, isnumlike, asnum
from .ex import Flow, Raise


class LoopRec(object):
    """what one generic iteration of a loop does"""

    def __init__(self, node, func, site):
        self.node, self.func, self.site = node, func, site
        self.count = self.idx = None
        self.heads = {}     # key -> (init, head, back, closed form or None)
        self.pc0 = None
        self.back = None    # state at the end of the iteration
        self.start = None
        self.exits = []
        self.outer = ()


class Loops(object):

    def s_For(self, n, st, flow):
        it = self.expr(n.iter, st)
        sq = self.iter_seq(st, it, n)
        sq = constrain(sq, st.pc)
        brk = []

        def one(s, v, fl):
            self.assign(n.target, constrain(v, s.pc), s)
            return self.block(n.body, s, fl)
        out = None
        ls = leaves(sq)
        if len(ls) > 40:
            raise Limit('loop over %d shapes' % len(ls))
        if len(ls) == 1:
            out = self.run_parts(n, list(ls[0].args[0]), st, flow, brk, one)
        else:
            # loop over slices of the same base: common case seq = c ? A : B
            for l in ls:
                g = lift1(lambda x: B(x is l), sq)
                pc = band(st.pc, g)
                if pc is FALSE:
                    continue
                s = State(dict(st.m), pc)
                r = self.run_parts(n, list(l.args[0]), s, flow, brk, one)
                out = self.join(r, out)
        if out is not None and n.orelse:
            out = self.block(n.orelse, out, flow)
        for b in brk:
            out = self.join(b, out)
        return out

    def run_parts(self, n, parts, st, flow, brk, one):
        for p in parts:
            if st is None:
                return None
            if p.op == 'e':
                fl = Flow()
                r = one(st, p.args[0], fl)
                for c in fl.cont:
                    r = self.join(c, r)
                brk += fl.brk
                flow.ret += fl.ret
                st = r
            elif p.op == 's':
                cnt = padd(p.args[2], p.args[1], -1)
                st = self.generic(n, cnt, st, flow, brk,
                                  lambda s, i, fl, p=p: one(s, self.part_elem(p, poly_of(i)), fl))
            else:
                cnt, j, body = p.args

                def inner(s, i, fl, body=body, j=j):
                    b = subst(body, {j: poly_of(i)}) if i is not j else body
                    b = constrain(b, s.pc)
                    out = None
                    ls = leaves(b)
                    for l in ls:
                        g = lift1(lambda x: B(x is l), b)
                        pc = band(s.pc, g)
                        if pc is FALSE:
                            continue
                        s2 = State(dict(s.m), pc) if len(ls) > 1 else s
                        if not l.args[0]:
                            r = s2
                        elif len(l.args[0]) == 1 and l.args[0][0].op == 'e':
                            f2 = Flow()
                            r = one(s2, l.args[0][0].args[0], f2)
                            for c in f2.cont:
                                r = self.join(c, r)
                            fl.brk += f2.brk
                            fl.ret += f2.ret
                        else:
                            b2 = []
                            r = self.run_parts(n, list(l.args[0]), s2, fl, b2, one)
                            fl.brk += b2
                        out = self.join(r, out)
                    return out
                st = self.generic(n, cnt, st, flow, brk, inner)
        return st

    def s_While(self, n, st, flow):
        r = self.while_known(n, st, flow)
        if r is not False:
            return r
        self.loop_seq += 1
        brk = []
        name = 'w%d' % self.loop_seq
        cnt = poly_of(mk('app', 'count', name, *[poly_of(i) for i in self.active_idx]))
        # a counted loop: discover the number of iterations from a first summary
        bound = self.while_bound(n, st, cnt)
        if bound is not None:
            cnt = bound

        def body(s, i, fl):
            c = self.expr(n.test, s)
            c = constrain(self.truth(s, c, n.test), s.pc)
            if c is not TRUE:
                pc = band(s.pc, c)
                if bound is None:
                    no = band(s.pc, bnot(c))
                    if no is not FALSE:
                        s2 = State(dict(s.m), no)
                        fl.brk.append(s2)
                        s2.m[('$normal',)] = TRUE
                if pc is FALSE:
                    return None
                s = State(dict(s.m), pc)
            r = self.block(n.body, s, fl)
            return r
        out = self.generic(n, cnt, st, flow, brk, body, wh=bound is None)
        if out is not None and n.orelse:
            out = self.block(n.orelse, out, flow)
        for b in brk:
            b.m.pop(('$normal',), None)
            out = self.join(b, out)
        return out

    unroll = 0      # iterations of a while loop followed one by one although its condition is not known

    def while_known(self, n, st, flow):
        """unrolls a loop whose condition is known at each of a few first iterations; False: it is not"""
        if isinstance(n.test, ast.Constant) and not self.unroll:
            return False
        snap = self.snapshot()
        seq0 = self.loop_seq
        s, brk, rets, pend0 = State(dict(st.m), st.pc), [], [], len(self.pend)
        try:
            for k in range(max(9, self.unroll + 1)):
                c = constrain(self.truth(s, self.expr(n.test, s), n.test), s.pc)
                if c is not TRUE and c is not FALSE and k < self.unroll and not n.orelse:
                    no = band(s.pc, bnot(c))
                    if no is not FALSE:
                        brk.append(State(dict(s.m), no))
                    c = band(s.pc, c)
                    if c is FALSE:
                        s = None
                        break
                    s = State(dict(s.m), c)
                    c = TRUE
                if c is FALSE:
                    if n.orelse:
                        f = Flow()
                        s = self.block(n.orelse, s, f)
                        rets += f.ret
                        flow.brk += f.brk
                        flow.cont += f.cont
                    break
                if c is not TRUE or k == max(8, self.unroll):
                    s = False
                    break
                f = Flow()
                s = self.block(n.body, s, f)
                for x in f.cont:
                    s = self.join(x, s)
                brk += f.brk
                rets += f.ret
                if s is None:
                    break
        except Limit:
            s = False
        if s is False:
            self.restore(snap)
            self.loop_seq = seq0
            return False
        flow.ret += rets
        for b in brk:
            s = self.join(b, s)
        return s

    def while_bound(self, n, st, cnt):
        """number of iterations of a loop whose condition is  closed form(index) < bound"""
        if isinstance(n.test, ast.Constant):
            return None
        snap = self.snapshot()
        self.rerun = True
        rec = []
        try:
            def body(s, i, fl):
                c = constrain(self.truth(s, self.expr(n.test, s), n.test), s.pc)
                pc = band(s.pc, c)
                if pc is FALSE:
                    return None
                return self.block(n.body, State(dict(s.m), pc), fl)
            brk = []
            s0 = State(dict(st.m), st.pc)
            self.generic(n, cnt, s0, Flow(), brk, body, probe=rec)
            if not rec:
                return None
            loop, closed, i = rec[0]
            # evaluate the condition at a head described by the closed forms
            s = State(dict(st.m), st.pc)
            for k, v in closed.items():
                s.m[k] = v
            self.active_idx.append(i)
            try:
                c = constrain(self.truth(s, self.expr(n.test, s), n.test), s.pc)
            finally:
                self.active_idx.pop()
        except (Raise, Limit):
            return None
        finally:
            self.restore(snap)
        # c must be one comparison of the index with an invariant bound
        if c.op != 'ite' or len(c.sup) != 1:
            # conjunction whose other atoms may stop earlier: not a counted loop
            return None
        a = c.args[0]
        if a.kind != 'lt0':
            return None
        p = a.args[0]
        coef = None
        for m, k in p.args[0]:
            if i in [x for x, _ in m]:
                if len(m) != 1 or m[0][1] != 1 or coef is not None:
                    return None
                coef = k
        if coef is None:
            return None
        rest = padd(p, pscale(poly_of(i), coef), -1)
        if i in syms(rest) or any(h in syms(rest) for h in self.head_apps(loop)):
            return None
        if coef == 1 and c.args[1] is TRUE and c.args[2] is FALSE:
            n_ = neg(rest)                  # i < -rest
        elif coef == -1 and c.args[1] is FALSE and c.args[2] is TRUE:
            n_ = padd(rest, num(1)) if is_int(rest) else None       # not(-i + rest < 0): i <= rest
        else:
            return None
        if n_ is None or not is_int(n_):
            return None
        neg_ = constrain(lt_zero(n_), st.pc)
        if neg_ is FALSE:
            return n_
        if neg_ is TRUE:
            return num(0)
        return poly_of(app('int', ite(neg_, num(0), n_)))

    def head_apps(self, loop):
        return [h for h in loop.headsyms]

    # ------------------------------------------------------------ snapshots

    def snapshot(self):
        return (len(self.obligs), len(self.unsup), len(self.writes), len(self.calls), len(self.loops), len(self.pend), len(self.raises),
                self.rerun, len(self.argspecs), len(self.lost))

    def restore(self, s):
        del self.obligs[s[0]:], self.unsup[s[1]:], self.writes[s[2]:], self.calls[s[3]:], self.loops[s[4]:], self.pend[s[5]:]
        del self.raises[s[6]:], self.argspecs[s[8]:], self.lost[s[9]:]
        self.rerun = s[7]

    # ------------------------------------------------------------ generic iteration

    def generic(self, n, cnt, st, flow, brk, body, wh=False, probe=None):
        if cnt.op != 'p':
            cnt = poly_of(cnt)
        if is_num_const(cnt) and num_val(cnt) <= 0:
            return st
        self.loop_seq += 1
        depth = len(self.active_idx)
        idx = idx_sym(cnt, depth)
        # facts about the count: at least one iteration
        nonempty = bnot(lt_zero(padd(cnt, num(-1))))
        name = 'L%d' % self.loop_seq
        init = st
        pc0 = band(init.pc, nonempty)
        if pc0 is FALSE:
            return st
        heads = {}          # key -> (head value, head term list)
        rec = LoopRec(n, self.frames[-1].func.qual if self.frames[-1].func else '?', self.site(n))
        rec.count, rec.idx, rec.pc0 = cnt, idx, pc0
        rec.outer = tuple(self.active_idx)
        widen = {}
        outs = fl = start = None
        pend0 = len(self.pend)
        ls = self.loop_seq
        exits = []
        for attempt in range(12):
            snap = self.snapshot()
            self.loop_seq = ls
            s = State(dict(init.m), pc0)
            for k, (h, _) in heads.items():
                s.m[k] = h
            start = dict(s.m)
            fl = Flow()
            self.active_idx.append(idx)
            try:
                out = body(s, idx, fl)
            except Raise:
                out = None
            finally:
                self.active_idx.pop()
            outs = out
            for c in fl.cont:
                outs = self.join(c, outs)
            if outs is None:
                changed = []
            else:
                changed = []
                for k, v in outs.m.items():
                    w = start.get(k)
                    if w is None:
                        if self.is_iter_obj(k[0], idx, start):
                            continue
                        w = self.loop_missing(init, k)
                        if w is None:
                            continue
                    if v is not w and constrain(v, outs.pc) is not constrain(w, outs.pc):
                        changed.append((k, w, v))
            again = False
            for k, w, v in changed:
                if self.elem_write(k, idx, cnt, init):
                    continue
                iv = init.m.get(k)
                if iv is None:
                    iv = self.loop_missing(init, k)
                kd = self.head_kind(k, iv, v, heads.get(k), widen)
                if k not in heads or heads[k][1] != kd:
                    again = True
                    hv = self.head_value(name, k, kd, idx)
                    heads[k] = (hv, kd)
            if not again:
                break
            if attempt < 11:
                self.restore(snap)
        else:
            raise Limit('loop at %s does not stabilise' % rec.site)
        rec.start = State(start, pc0)
        rec.back = outs
        # exits of the iteration by exception
        raised = self.pend[pend0:]
        del self.pend[pend0:]
        hsyms = set()
        for k, (h, _) in heads.items():
            hsyms |= {x for x in syms(h) if x.op == 'app' and x.args[0] == 'h' and x.args[1].startswith(name + ':')}
        rec.headsyms = hsyms
        # closed forms of the heads (value at the start of iteration idx)
        closed = {}
        finals = {}
        if outs is not None:
            self.solve_heads(rec, heads, init, outs, idx, cnt, name, closed, finals, probe is not None)
        else:
            # the body never completes normally: at most one iteration
            for k, (h, kd) in heads.items():
                iv = init.m.get(k)
                closed[k] = iv if iv is not None else self.loop_missing(init, k)
        for k, (h, kd) in heads.items():
            iv = init.m.get(k)
            if iv is None:
                iv = self.loop_missing(init, k)
            rec.heads[k] = (iv, h, outs.m.get(k) if outs is not None else None, closed.get(k), kd)
        rec.finals = finals
        if probe is not None:
            probe.append((rec, closed, idx))
            return st
        self.loops.append(rec)
        sub = self.head_subst(heads, closed, name)

        def close(v):
            return subst(v, sub) if sub else v

        if sub:
            for k in range(snap[0], len(self.obligs)):
                g, e, si, ms = self.obligs[k]
                self.obligs[k] = (close(g), e, si, ms)
            for k in range(snap[3], len(self.calls)):
                q, g, a, kw, si = self.calls[k]
                self.calls[k] = (q, close(g), tuple(close(x) for x in a), {x: close(y) for x, y in kw.items()}, si)

        # exits
        exs = []
        for (pc, v, s) in fl.ret:
            exs.append(('ret', pc, v, s, None))
        for s in fl.brk:
            exs.append(('brk', s.pc, None, s, None))
        for (pc, en, v, s) in raised:
            exs.append(('raise', pc, v, s, en))
        eguards = []
        for kind, pc, v, s, en in exs:
            g = close(constrain(pc, pc0))
            eguards.append(g)
        rec.exits = [(e[0], g, e[4]) for e, g in zip(exs, eguards)]
        tot = bor(*eguards) if eguards else FALSE
        anyx = any_(cnt, idx, tot) if tot is not FALSE else FALSE
        if tot is TRUE:
            anyx = nonempty
        # states at the exits
        for (kind, pc, v, s, en), g in zip(exs, eguards):
            k = self.first_idx(cnt, idx, tot)
            at = {idx: k}
            g_at = subst(g, at) if idx in syms(g) and tot is not g else TRUE
            if g_at is FALSE:
                continue
            xpc = band(init.pc, band(anyx, g_at))
            if xpc is FALSE:
                continue
            m = {}
            for kk, val in s.m.items():
                if kk[0] is not None and self.is_iter_obj(kk[0], idx, start):
                    m[kk] = close(val)
                    continue
                i0 = init.m.get(kk)
                if i0 is val:
                    m[kk] = val
                    continue
                if len(kk) == 2 and idx in syms(kk[0]):
                    # element written in the last iteration, and in the earlier ones
                    self.map_write(m, kk, close(val), idx, k, num(0), init, at)
                    continue
                m[kk] = subst(close(val), at)
            # writes done by the completed iterations
            if outs is not None:
                for kk, val in outs.m.items():
                    if len(kk) == 2 and idx in syms(kk[0]) and not self.is_iter_obj(kk[0], idx, start) and start.get(kk) is not val:
                        if (self.map_key(kk)) not in m:
                            self.map_store(m, kk, close(val), idx, k)
                    elif kk not in m:
                        if self.is_iter_obj(kk[0], idx, start):
                            m[kk] = close(val)
            ns = State(m, xpc)
            if kind == 'ret':
                flow.ret.append((xpc, subst(close(v), at), ns))
            elif kind == 'brk':
                brk.append(ns)
            else:
                self.pend.append((xpc, en, subst(close(v), at) if v.op not in ('exc', 'bi', 'cls') else v, ns))
        if outs is None:
            # normal completion only without iterations
            pc = band(init.pc, bnot(nonempty))
            if pc is FALSE:
                return None
            return State(init.m, pc)
        pc = band(init.pc, bnot(anyx)) if anyx is not FALSE else init.pc
        if wh:
            return None if pc is FALSE or True else None
        if pc is FALSE:
            return None
        m = dict(init.m)
        for kk, val in outs.m.items():
            if kk in heads:
                m[kk] = finals[kk]
            elif self.is_iter_obj(kk[0], idx, start):
                m[kk] = close(val)
            elif start.get(kk) is val:
                continue
            elif idx in syms(kk[0]) if isinstance(kk[0], N) else False:
                self.map_store(m, kk, close(val), idx, cnt)
        return State(m, pc)

    # ------------------------------------------------------------ keys

    def is_iter_obj(self, t, idx, start):
        """object allocated by the iteration"""
        if not isinstance(t, N):
            return False
        if t.op == 'app' and t.args[0] == 'inst':
            return (t, '$new') not in start and any(idx in syms(a) for a in t.args[2:])
        if t.op == 'obj' and isinstance(t.args[0], Frame):
            return False
        return t.op == 'obj' and isinstance(t.args[0], Obj) and (t, '$new') not in start and (t, '$new') not in self.static

    def loop_missing(self, st, k):
        v = st.m.get(k)
        if v is not None:
            return v
        if len(k) == 3:
            return None
        return self.missing(st, k)

    def elem_write(self, k, idx, cnt, init):
        """attribute write on an object that is a function of the index (distinct objects)"""
        t = k[0]
        if len(k) != 2 or not isinstance(t, N):
            return False
        if t.op == 'app' and t.args[0] == 'at' and idx in syms(t):
            return True
        if t.op == 'app' and t.args[0] == 'items' and idx in syms(t):
            return True
        if t.op in ('app', 'sym') and idx in syms(t) and not (t.op == 'app' and t.args[0] in ('h',)):
            return True
        return False

    def map_key(self, kk):
        t, a = kk
        if t.op == 'app' and t.args[0] == 'at':
            return (t.args[1], '$map', a)
        return (t, '$map', a)

    def map_store(self, m, kk, val, idx, hi):
        t, a = kk
        if t.op == 'app' and t.args[0] == 'at':
            off = padd(t.args[2], poly_of(idx), -1)
            if idx in syms(off) or idx in syms(t.args[1]):
                # nested structure: element of an element
                m[('$nested', t, a)] = mk('mapent', idx, hi, val)
                return
            m[(t.args[1], '$map', a)] = mk('map', idx, off, hi, val, m.get((t.args[1], '$map', a), NONE))
        else:
            m[('$nested', t, a)] = mk('mapent', idx, hi, val)

    def map_write(self, m, kk, val, idx, k, lo, init, at):
        t, a = kk
        m[(subst_term(t, at), a)] = subst(val, at)

    # ------------------------------------------------------------ heads

    def head_kind(self, k, iv, v, old, widen):
        """kind of a loop modified location: join over the initial and the back values"""
        if k[1] == '$seq' or k[1] == '$ev' or k[1] == '$yield' or k[1] == '$items' or k[1] == '$specs':
            ek = None
            for val in (iv, v):
                if val is None:
                    continue
                for l in leaves(val):
                    if l.op == 'seq':
                        for p in l.args[0]:
                            if p.op == 's' and p.args[0].op == 'app' and p.args[0].args[0] == 'items' and p.args[0].args[1].op == 'app' \
                                    and p.args[0].args[1].args[0] == 'h' and k in self.hkeys(p.args[0].args[1]):
                                continue
                            kk = self.kind_of_seq(mk('seq', (p,)))
                            if kk == 'empty':
                                continue
                            ek = kk if ek is None or ek == kk else 'any'
            return ('seq', ek or 'empty')
        alts = set()
        kinds = set()
        if old is not None:
            kinds |= set(old[1][1])
            alts |= set(old[1][2])
        for val in (iv, v):
            if val is None:
                continue
            for l in leaves(val):
                if l.op == 'absent':
                    alts.add(l)
                    continue
                if l.op == 'undef':
                    alts.add(l)
                    continue
                kd = self.leaf_kind(l)
                if kd == 'any' and (l.op in ('c', 'cls', 'fn', 'bi', 'mod', 'bound') or (l.op == 'tup' and not syms(l))):
                    alts.add(l)
                    continue
                if kd == 'any' and l.op == 'tup':
                    kinds.add('tup%d' % len(l.args[0]))
                    continue
                if kd == 'any' and l.op == 'cx':
                    kinds.add('cx')
                    continue
                if kd == 'any' and l.op == 'app' and l.args[0] == 'h':
                    continue
                if l.op == 'ref':
                    kd = 'ref:' + self.cls_name(self.class_of(l.args[0]))
                kinds.add(kd)
        if 'num' in kinds:
            kinds.discard('int')
        return ('val', tuple(sorted(kinds)), tuple(sorted(alts, key=lambda x: x.id)))

    def cls_name(self, c):
        if isinstance(c, Cls):
            return c.qual
        return str(c)

    def hkeys(self, h):
        return self.hmap.get(h.args[1], ())

    def head_value(self, name, k, kd, idx):
        label = self.key_label(k)
        nm = '%s:%s' % (name, label)
        self.hmap.setdefault(nm, set()).add(k)
        h = mk('app', 'h', nm, *[poly_of(i) for i in self.active_idx] + [poly_of(idx)])
        if kd[0] == 'seq':
            ek = kd[1] if kd[1] not in ('empty', 'none', 'num?', 'int?') else ('num?' if kd[1] in ('num?', 'int?') else 'any')
            base = app('items', h, ek)
            return mk('seq', (mk('s', base, num(0), len_base(base)),))
        _, kinds, alts = kd
        opts = []
        for a in alts:
            opts.append((atom('isalt', h, a.id if False else show(a)), a))
        res = None
        rest = [x for x in kinds if x != 'none']
        for j, x in enumerate(rest):
            v = self.head_typed(h, x, j)
            if res is None:
                res = v
            else:
                res = ite(lit(atom('kind', h, x)), v, res)
        if 'none' in kinds:
            res = NONE if res is None else ite(lit(atom('none', h)), NONE, res)
        for a, v in opts:
            res = v if res is None else ite(lit(a), v, res)
        return res

    def head_typed(self, h, kd, j):
        if kd == 'int':
            return poly_of(mk('sym', h, 'int'))
        if kd == 'num':
            return poly_of(h)
        if kd == 'bool':
            return lit(atom('true', h))
        if kd == 'str':
            return mk('sym', h, 'str')
        if kd.startswith('ref:'):
            q = kd[4:]
            c = self.classes.get(q)
            if q in ('list', 'set', 'array') or q.startswith('list:'):
                return mk('ref', mk('sym', h, 'obj', 'list:any' if not q.startswith('list:') else q))
            return mk('ref', mk('sym', h, 'obj', q))
        if kd.startswith('tup'):
            k = int(kd[3:])
            return mk('tup', tuple(app('tget', h, num(i)) for i in range(k)))
        if kd == 'cx':
            return mk('cx', poly_of(app('re', h)), poly_of(app('im', h)))
        return h

    def key_label(self, k):
        t = k[0]
        nm = str(k[1])
        if isinstance(t, N) and t.op == 'obj' and isinstance(t.args[0], Frame):
            f = t.args[0].func
            d = sum(1 for fr in self.frames if fr.term is t)
            pos = [i for i, fr in enumerate(self.frames) if fr.term is t]
            return '%s.%s%s' % (f.name if f is not None else '?', nm, '' if not pos or pos[-1] == len(self.frames) - 1 else '@%d' % pos[-1])
        return '%s.%s' % (show(t), nm)

    def head_subst(self, heads, closed, name):
        """substitution head symbol -> closed form (for heads of simple kinds)"""
        sub = {}
        for k, (h, kd) in heads.items():
            c = closed.get(k)
            if c is None:
                continue
            hs = [x for x in syms(h) if x.op == 'app' and x.args[0] == 'h' and x.args[1].startswith(name + ':')]
            if len(hs) != 1:
                continue
            hh = hs[0]
            if kd[0] == 'seq':
                continue        # contents are handled separately
            if kd[1] == ('int',) and not kd[2]:
                sub[mk('sym', hh, 'int')] = c
            elif kd[1] == ('num',) and not kd[2]:
                sub[hh] = c
            elif kd[1] == ('bool',) and not kd[2]:
                sub[hh] = c
            elif kd[1] == ('str',) and not kd[2]:
                sub[mk('sym', hh, 'str')] = c
            elif len(kd[1]) == 1 and kd[1][0].startswith('ref:') and not kd[2] and c.op == 'ref':
                sub[h.args[0]] = c.args[0]
            elif set(kd[1]) in ({'num', 'none'}, {'int', 'none'}, {'any'}, {'any', 'none'}):
                sub[hh] = c
        return sub

    # ------------------------------------------------------------ solving

    def solve_heads(self, rec, heads, init, outs, idx, cnt, name, closed, finals, probe):
        backs = {}
        inits = {}
        for k, (h, kd) in heads.items():
            b = outs.m.get(k)
            if b is None:
                b = h
            backs[k] = constrain(b, outs.pc)
            iv = init.m.get(k)
            inits[k] = iv if iv is not None else self.loop_missing(init, k)
        todo = [k for k in heads]
        sub = {}
        progress, streams = True, False
        while progress:
            progress = False
            for k in list(todo):
                h, kd = heads[k]
                own = {x for x in syms(h) if x.op == 'app' and x.args[0] == 'h' and x.args[1].startswith(name + ':')}
                b = backs[k]
                if sub:
                    try:
                        b = subst(b, sub)
                    except Limit:
                        b = backs[k]
                others = {x for x in syms(b) if x in rec.headsyms and x not in own}
                if kd[0] == 'seq' and others and not streams:
                    continue        # first the values the contents depend on
                r = self.classify(k, h, kd, own, inits[k], b, idx, cnt, others)
                if r is not None:
                    closed[k], finals[k] = r
                    todo.remove(k)
                    s2 = self.head_subst({k: heads[k]}, {k: closed[k]}, name)
                    if s2:
                        sub.update(s2)
                        progress = True
            if not progress and not streams:
                progress = streams = True
        end = {idx: cnt}
        for k in todo:
            h, kd = heads[k]
            if cnt.op == 'p':
                f = subst(h, end)
                finals[k] = ite(lt_zero(padd(cnt, num(-1))), inits[k], f) if inits[k] is not None else f
        # contents heads with a closed form: substitute slices
        for k in list(closed):
            if heads[k][1][0] == 'seq':
                pass

    def classify(self, k, h, kd, own, iv, b, idx, cnt, others):
        """(value at the start of iteration idx, value after the loop) or None"""
        n1 = padd(cnt, num(-1))
        if iv is None:
            return None
        hs = next(iter(own)) if own else None
        if kd[0] == 'seq':
            # append: back = head ++ X
            base_part = h.args[0][0]

            def tail(l):
                if l.op != 'seq' or not l.args[0] or l.args[0][0] is not base_part:
                    # the head may have been merged with a following slice
                    return None
                rest = l.args[0][1:]
                t = mk('seq', rest)
                if syms(t) & own:
                    return None
                return t
            ok = True
            ts = {}
            for l in leaves(b):
                t = tail(l)
                if t is None:
                    ok = False
                    break
                ts[l] = t
            if not ok:
                if not (syms(b) & own) and not others:
                    return self.shift(iv, b, idx, cnt)
                return None
            if others:
                # other locations of the loop without closed form: keep them as streams
                pass
            x = lift1(lambda l: ts[l], b)
            if any(a for a in x.sup if syms(a) & own):
                return None
            i2 = idx
            fin = concat(iv, fm(cnt, idx, x))
            head = lift1(lambda l: l, concat(iv, self.prefix_fm(idx, x)))
            return head, fin
        if not (syms(b) & own):
            # independent of its own previous value
            return self.shift(iv, b, idx, cnt) if not others else None
        # step
        if set(kd[1]) <= {'int', 'num'} and len(kd[1]) == 1 and not kd[2]:
            hp = h
            if all(l.op == 'p' for l in leaves(b)) and all(l.op == 'p' for l in leaves(iv)):
                d = lift1(lambda l: padd(l, hp, -1), b)
                if not (syms(d) & own) and not others:
                    fin = lift2(padd, iv, sum_(cnt, idx, d))
                    if idx not in syms(d) and d.op == 'p':
                        head = lift1(lambda a: padd(a, pmul(poly_of(idx), d)), iv)
                    else:
                        head = self.prefix_sum(iv, idx, d)
                    return head, fin
        # flag: set to a constant under a condition
        if kd == ('val', ('bool',), ()):
            a = atom('true', hs)
            f1, f0 = restrict(b, a, True), restrict(b, a, False)
            if not (syms(f1) & own) and not (syms(f0) & own) and not others:
                if f1 is TRUE:       # h or c
                    fin = bor(iv, any_(cnt, idx, f0))
                    head = bor(iv, self.prefix_any(idx, f0))
                    return head, fin
                if f0 is FALSE:      # h and c
                    c = bnot(f1)
                    fin = band(iv, bnot(any_(cnt, idx, c)))
                    head = band(iv, bnot(self.prefix_any(idx, c)))
                    return head, fin
        # latch: keeps its value or becomes one fixed constant
        if not others:
            ls = leaves(b)
            hl = set(leaves(h))
            new = [l for l in ls if l not in hl]
            if len(new) == 1 and not (syms(new[0]) & ({idx} | own)):
                g = lift1(lambda l: B(l is new[0]), b)
                if not (syms(g) & own):
                    same = lift1(lambda l: l, b)
                    fin = ite(any_(cnt, idx, g), new[0], iv)
                    head = ite(self.prefix_any(idx, g), new[0], iv)
                    return head, fin
        return None

    def shift(self, iv, b, idx, cnt):
        if idx not in syms(b):
            first = eq_zero(poly_of(idx))
            return ite(first, iv, b), ite(lt_zero(padd(cnt, num(-1))), iv, b)
        prev = subst(b, {idx: padd(poly_of(idx), num(-1))})
        head = ite(eq_zero(poly_of(idx)), iv, prev)
        fin = ite(lt_zero(padd(cnt, num(-1))), iv, subst(b, {idx: padd(cnt, num(-1))}))
        return head, fin

    def inner_idx(self, idx):
        """index ranging below idx"""
        return mk('sym', 'j' + str(idx.args[0]), 'int', poly_of(idx))

    def prefix_fm(self, idx, x):
        j = self.inner_idx(idx)
        return fm(poly_of(idx), j, subst(x, {idx: poly_of(j)}))

    def prefix_any(self, idx, c):
        j = self.inner_idx(idx)
        return any_(poly_of(idx), j, subst(c, {idx: poly_of(j)}))

    def prefix_sum(self, iv, idx, d):
        j = self.inner_idx(idx)
        return lift2(padd, iv, sum_(poly_of(idx), j, subst(d, {idx: poly_of(j)})))


def subst_term(t, m):
    r = subst(t, m)
    if r.op == 'ref':
        return r.args[0]
    return r
