"""Obligations of a check: comparison of abstract values, verdicts, evidence."""
import hashlib
import json
import os
import sys
import time
import traceback

from .alg import *
from . import alg
from .state import *
from .interp import Interp, Site
from .drive import Run, pretty

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ---------------------------------------------------------------- feasibility of a guard (linear arithmetic)

def _lin(p):
    """polynomial as {monomial: coefficient}, constant under ()"""
    return {m: c for m, c in p.args[0]}


def base_facts(ms):
    """facts about the monomials: lengths and indices are not negative, indices are below their count"""
    out = []
    seen = set()
    todo = list(ms)
    while todo:
        m = todo.pop()
        if m in seen or len(m) != 1 or m[0][1] != 1:
            continue
        seen.add(m)
        t = m[0][0]
        new = []
        if t.op == 'app' and t.args[0] in ('len', 'count', 'abs', 'ceil_count', 'sqrt', 'hypot'):
            out.append(({m: Fraction(-1)}, False))              # -t <= 0
        if t.op == 'sym' and len(t.args) > 2 and t.args[1] == 'int' and isinstance(t.args[2], N) and t.args[2].op == 'p':
            out.append(({m: Fraction(-1)}, False))
            d = {m: Fraction(1)}
            for k, c in _lin(t.args[2]).items():
                d[k] = d.get(k, 0) - c
                new.append(k)
            out.append((d, True))                               # i - n < 0
        if t.op == 'app' and t.args[0] in ('int', 'floor', 'round') and isinstance(t.args[1], N) and t.args[1].op == 'p':
            # a whole or rounded number is near its argument
            d = {m: Fraction(1)}
            for k, c in _lin(t.args[1]).items():
                d[k] = d.get(k, 0) - c
                new.append(k)
            up, down, strict = Fraction(1), Fraction(1), True
            if t.args[0] == 'floor':
                up = Fraction(0)
            elif t.args[0] == 'round':
                k = num_val(t.args[2]) if len(t.args) > 2 and t.args[2].op == 'p' and is_num_const(t.args[2]) else 0
                up = down = Fraction(1, 2) / Fraction(10) ** int(k)
                strict = False
            a = dict(d)
            a[()] = a.get((), Fraction(0)) - up
            out.append((a, strict and up > 0))
            b = {k: -c for k, c in d.items()}
            b[()] = b.get((), Fraction(0)) - down
            out.append((b, strict))
        todo += new
    return out


def truncation_facts(ms, cons):
    """int(p) and floor(p) are the same where p is not negative"""
    out = []
    for m in sorted(ms, key=lambda m: m[0][0].id if m else 0):
        if len(m) != 1 or m[0][1] != 1:
            continue
        t = m[0][0]
        if t.op == 'app' and t.args[0] == 'int' and len(t.args) == 2 and t.args[1].op == 'p':
            p = t.args[1]
            low = _lin(p)
            if fm_infeasible(cons + base_facts(set(low)) + [(low, True)]):      # p < 0 is impossible
                d = {k: -c for k, c in low.items()}
                d[m] = d.get(m, 0) + 1
                out.append((d, False))                                          # int(p) <= p
                out.append(({m: Fraction(-1)}, False))                          # int(p) >= 0
                fl = ((alg.mk('app', 'floor', p), 1),)
                if fl in ms:
                    out.append(({m: Fraction(1), fl: Fraction(-1)}, False))
                    out.append(({m: Fraction(-1), fl: Fraction(1)}, False))
    return out


def fm_infeasible(cons):
    """True if the linear constraints (coeffs, strict): sum <(=) 0 have no rational solution (bounded effort)"""
    cons = [(dict((k, c) for k, c in d.items() if c), s) for d, s in cons]
    for _ in range(40):
        var = {}
        for d, s in cons:
            ks = [k for k in d if k != ()]
            if not ks:
                c = d.get((), 0)
                if c > 0 or (c == 0 and s):
                    return True
            for k in ks:
                a = var.setdefault(k, [0, 0])
                a[d[k] > 0] += 1
        if not var:
            return False
        k = min(var, key=lambda x: var[x][0] * var[x][1])
        pos = [(d, s) for d, s in cons if d.get(k, 0) > 0]
        negs = [(d, s) for d, s in cons if d.get(k, 0) < 0]
        rest = [(d, s) for d, s in cons if not d.get(k, 0)]
        if len(pos) * len(negs) > 400:
            return False
        for d1, s1 in pos:
            for d2, s2 in negs:
                a, b = d1[k], -d2[k]
                d = {}
                for x, c in d1.items():
                    d[x] = d.get(x, 0) + c * b
                for x, c in d2.items():
                    d[x] = d.get(x, 0) + c * a
                d.pop(k, None)
                rest.append(({x: c for x, c in d.items() if c}, s1 or s2))
        cons = rest
    return False


def feasible(lits, facts=()):
    """False only when the conjunction is contradictory"""
    if not feasible1(lits, facts):
        return False
    try:
        m = solved(lits)
        if not m:
            return True
        keys, q = set(m), TRUE
        for a, v in lits:
            r = subst(lit(a), m) if syms(a) & keys else lit(a)
            q = band(q, r if v else bnot(r))
            if q is FALSE:
                return False
        if q is TRUE:
            return True
        return any(feasible1(ls, facts) for ls, leaf in paths(q, lambda l: l is TRUE, 50))
    except Limit:
        return True


def inverse(p):
    """q if p is a multiple of 1/q (with the sign of the multiple)"""
    if len(p.args[0]) != 1:
        return None
    m, c = p.args[0][0]
    if len(m) != 1:
        return None
    n, w = m[0]
    if n.op == 'app' and n.args[0] == 'inv' and w == 1:
        return n.args[1] if c > 0 else neg(n.args[1])
    if w == -1:
        return poly_of(n) if c > 0 else neg(poly_of(n))
    return None


def feasible1(lits, facts=()):
    cons = []
    neq = []
    ms = set()
    for a, v in list(lits) + list(facts):
        if a.kind == 'lt0':
            q = inverse(a.args[0])
            if q is not None:       # 1/q has the sign of q
                a = alg.atom('lt0', q)
            d = _lin(a.args[0])
            if v:
                cons.append((d, True))
            else:
                cons.append(({k: -c for k, c in d.items()}, False))
            ms |= set(d)
        elif a.kind == 'eq0':
            d = _lin(a.args[0])
            ms |= set(d)
            if v:
                cons.append((d, False))
                cons.append(({k: -c for k, c in d.items()}, False))
            else:
                neq.append(d)
    if not cons:
        return True
    ms.discard(())
    cons += base_facts(ms)
    cons += truncation_facts(ms, cons)
    # integer tightening: strict bounds on integer valued forms
    tight = []
    for d, s in cons:
        if s and all(c.denominator == 1 for c in d.values()) and all(k == () or (len(k) == 1 and k[0][1] == 1 and _isint(k[0][0])) for k in d):
            d = dict(d)
            d[()] = d.get((), Fraction(0)) + 1
            tight.append((d, False))
        else:
            tight.append((d, s))
    if fm_infeasible(tight):
        return False
    for d in neq:
        # d == 0 forced by the rest?
        if fm_infeasible(tight + [(d, True)]) and fm_infeasible(tight + [({k: -c for k, c in d.items()}, True)]):
            return False
    return True


def _isint(t):
    try:
        return is_int(poly_of(t))
    except Exception:
        return False


# ---------------------------------------------------------------- comparison

def unknown(v):
    """the value depends on something the interpreter does not model"""
    if isinstance(v, alg.Atom) and v.kind == 'hasattr':
        return True
    for x in syms(v):
        if x.op == 'sym' and isinstance(x.args[0], str) and x.args[0].startswith('unk:'):
            return True
        if x.op == 'app' and x.args[0] in ('maxof', 'minof'):
            return True         # compared with a number, it is understood; as a value, it has no normal form
    return False


def lits_text(lits, n=40):
    out = []
    for a, v in lits[:n]:
        s = str(a)
        out.append(s if v else 'not (%s)' % s)
    if len(lits) > n:
        out.append('...')
    return ' and '.join(out) or 'always'


def equalities(lits):
    """substitution given by the equations asserted on a path"""
    out = {}
    for a, v in lits:
        if a.kind == 'eq0' and v:
            p = subst(a.args[0], out) if out else a.args[0]
            if p.op != 'p' or is_num_const(p):
                continue
            s = alg._solve(p)
            if s is not None:
                out = {k: subst(w, {s[0]: s[1]}) for k, w in out.items()}
                out[s[0]] = s[1]
    return out


def solved(lits):
    """like equalities, for plain symbols only (not whole numbers if it can be helped)"""
    out = {}
    for a, v in lits:
        if a.kind == 'eq0' and v:
            p = subst(a.args[0], out) if out else a.args[0]
            if p.op != 'p' or is_num_const(p):
                continue
            best = None
            for m, co in p.args[0]:
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sym':
                    n = m[0][0]
                    val = pscale(padd(p, pscale(poly_of(n), co), -1), -1 / co)
                    if n not in syms(val):
                        k = (alg.is_int_sym(n), -n.id)
                        if best is None or k < best[0]:
                            best = (k, n, val)
            if best is not None:
                _, n, val = best
                out = {k: subst(w, {n: val}) for k, w in out.items()}
                out[n] = val
    return out


def differs(a, b):
    """diagram: the values are different"""
    def f(p, q):
        if p is q:
            return FALSE
        if p.op == 'p' and q.op == 'p':
            return bnot(eq_zero(padd(p, q, -1)))
        return TRUE
    return lift2(f, a, b)


_canon = alg.memo() if hasattr(alg, 'memo') else {}


def canon(v):
    """diagram with the choices inside sequence elements and tuples lifted out"""
    r = _canon.get(v)
    if r is None:
        r = _canon[v] = lift1(_canon_leaf, v)
    return r


def _canon_leaf(l):
    if l.op == 'tup':
        if not any(isinstance(x, N) and (x.op in ('ite', 'seq', 'tup')) for x in l.args[0]):
            return l
        r = mk('tup', ())
        for x in l.args[0]:
            r = lift2(lambda a, b: mk('tup', a.args[0] + (b,)), r, canon(x))
        return r
    if l.op != 'seq':
        return l
    if not any(p.op == 'fm' or (p.op == 'e' and p.args[0].op in ('ite', 'seq', 'tup')) for p in l.args[0]):
        return l
    r = EMPTYSEQ
    for p in l.args[0]:
        if p.op == 'e':
            q = lift1(lambda x: mk('seq', (elem(x),)), canon(p.args[0]))
        elif p.op == 'fm':
            n, i, b = p.args
            q = fm(n, i, canon(b))
        else:
            q = mk('seq', (p,))
        r = concat(r, q)
    return r


class Undecided(Exception):
    pass


class Check(object):
    def __init__(self, pid, root='/repo'):
        self.pid = pid
        self.root = root
        self.obs = []           # (rule, where, status, detail)
        self.t0 = time.time()
        self.functions = set()
        self.known = load_known(pid)
        self.assume = []
        self.notes = []
        self.nodes = 0
        self.end = time.monotonic() + float(os.environ.get('GCV_SECONDS', '720'))
        self.found = False
        self.last = None

    # -- running the analysis

    def run(self, schema=None, **kw):
        r = Run(self.root, schema)
        self.last = r
        return r

    def seen(self, R):
        self.functions |= {f for f in R.I.functions_seen}
        self.nodes += R.I.nstmts

    def ok(self, rule, where, detail=''):
        self.obs.append((rule, where, 'ok', detail))

    def bad(self, rule, where, detail):
        lost = self.last.I.lost if self.last is not None else ()
        if lost:
            self.undecided(rule, where, '%s: %s; the run is not complete: %s' % (lost[0][0], lost[0][1], detail))
            return
        self.obs.append((rule, where, 'violation', detail))
        if not self.found and not self.known_for(rule, where, detail):
            # the verdict is settled: a little more time for further ones
            self.found = True
            self.end = min(self.end, time.monotonic() + 40)
            if alg.DEADLINE[0] is not None:
                alg.DEADLINE[0] = min(alg.DEADLINE[0], self.end)

    def attempt(self, what, fn, *a, secs=150):
        """runs a part of the check with a bound on its time"""
        before = alg.DEADLINE[0]
        I = self.last.I if self.last is not None else None
        keep = (len(I.frames), len(I.active_idx), len(I.pend)) if I is not None else None
        alg.DEADLINE[0] = min(self.end, time.monotonic() + secs)
        if before is not None:
            alg.DEADLINE[0] = min(before, alg.DEADLINE[0])
        try:
            return fn(*a)
        except Limit as ex:
            if not (self.found and isinstance(ex, alg.TimeLimit)):
                alg.DEADLINE[0] = None
                self.undecided('analysis', what, '%s: %s' % (type(ex).__name__, ex))
            if keep is not None and self.last.I is I:
                del I.frames[keep[0]:], I.active_idx[keep[1]:], I.pend[keep[2]:]
            return None
        finally:
            alg.DEADLINE[0] = min(before, self.end) if before is not None else None

    def undecided(self, rule, where, detail):
        self.obs.append((rule, where, 'undecided', detail))

    def where(self, R, qual):
        """file:line of a function"""
        v = R.get(qual)
        if v is not None and v.op == 'fn':
            f = v.args[0]
            return '%s:%d %s' % (f.module.path, f.node.lineno, qual)
        if v is not None and v.op == 'cls':
            c = v.args[0]
            return '%s:%d %s' % (c.module.path, c.node.lineno, qual)
        return qual

    def need(self, R, qual, rule='entry point'):
        v = R.get(qual)
        if v is None:
            self.undecided(rule, qual, 'not found')
            raise Undecided(qual)
        return v

    # -- comparing

    def holds(self, rule, where, cond, care=TRUE, detail='', facts=()):
        """cond must be TRUE wherever care is"""
        bad = band(care, bnot(cond)) if care is not TRUE else bnot(cond)
        return self.never(rule, where, bad, detail, facts)

    def never(self, rule, where, bad, detail='', facts=()):
        if bad is FALSE:
            self.ok(rule, where)
            return True
        und = None
        for lits, leaf in paths(bad, lambda l: l is not FALSE, 4000):
            if leaf is not TRUE:
                und = und or (lits, 'condition is not boolean: %r' % (leaf,))
                continue
            if not feasible(lits, facts):
                continue
            if any(unknown(a) for a, v in lits):
                und = und or (lits, 'depends on a value outside of the model')
                continue
            self.bad(rule, where, '%s; when %s' % (detail, lits_text(lits)))
            return False
        if und:
            self.undecided(rule, where, '%s; when %s' % (und[1], lits_text(und[0])))
            return None
        self.ok(rule, where)
        return True

    def same(self, rule, where, got, want, care=TRUE, facts=(), eq=None, detail=''):
        """got and want must be the same value wherever care is TRUE"""
        if got is None or want is None:
            self.undecided(rule, where, 'no value')
            return None
        if care is FALSE:
            self.ok(rule, where, 'vacuous')
            return True
        g, w = constrain(got, care), constrain(want, care)
        if g is not w:
            try:
                g, w = constrain(canon(g), care), constrain(canon(w), care)
            except Limit:
                pass
        if g is w:
            self.ok(rule, where)
            return True
        tab = {}

        def f(a, b):
            if a is b:
                return FALSE
            if eq is not None:
                r = eq(a, b)
                if r is not None:
                    return r if r in (TRUE, FALSE) and not isinstance(r, bool) else (FALSE if r else mk('diff', a, b))
            return mk('diff', a, b)
        try:
            d = lift2(f, g, w)
            d = ite(care, d, FALSE) if care is not TRUE else d
        except Limit as ex:
            self.undecided(rule, where, str(ex))
            return None
        und = None
        for lits, leaf in paths(d, lambda l: l is not FALSE, 4000):
            if not feasible(lits, facts):
                continue
            a, b = leaf.args
            m = equalities(lits)
            if m:
                try:
                    a, b = subst(a, m), subst(b, m)
                    if a is b or (eq is not None and eq(a, b) in (True, TRUE)):
                        continue
                except Limit:
                    pass
            if eq is None and a.op == 'p' and b.op == 'p':
                d = padd(a, b, -1)
                if is_num_const(d):
                    if num_val(d) == 0:
                        continue
                elif not any(feasible(list(lits) + [(alg.atom('lt0', x), True)], facts) for x in (d, neg(d))):
                    continue
            if unknown(a) or unknown(b) or any(unknown(x) for x, v in lits):
                und = und or (lits, a, b)
                continue
            self.bad(rule, where, '%sis %s instead of %s; when %s' % (detail + ' ' if detail else '', short(a), short(b), lits_text(lits)))
            return False
        if und:
            self.undecided(rule, where, 'value outside of the model: %s / %s; when %s' % (short(und[1]), short(und[2]), lits_text(und[0])))
            return None
        self.ok(rule, where)
        return True

    def no_unsup(self, R, rule='modelled constructs', where=''):
        for s, what in R.I.unsup:
            self.undecided(rule, '%s' % s, what)

    def raises(self, R):
        """[(guard, exception, site, message)] of the uncaught exceptions, joined per site"""
        out = {}
        for g, e, s, m in R.I.obligs:
            k = (e, s.file, s.line, s.func)
            if k in out:
                out[k] = (bor(out[k][0], g), e, s, m)
            else:
                out[k] = (g, e, s, m)
        return list(out.values())

    # -- verdict

    def finish(self, explanation, level='other'):
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        viol, known = [], []
        for rule, where, stt, det in self.obs:
            if stt == 'violation':
                k = self.known_for(rule, where, det)
                (known if k else viol).append((rule, where, det, k))
        und = [o for o in self.obs if o[2] == 'undecided']
        ok = [o for o in self.obs if o[2] == 'ok']
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {
            'property': self.pid, 'tier': tier, 'seed': seed, 'level': level,
            'coverage': {
                'explanation': explanation,
                'obligations': len(self.obs), 'discharged': len(ok),
                'undecided': len(und), 'known_findings': len(known),
                'functions': sorted(self.functions),
                'statements_interpreted': self.nodes,
                'rules': sorted({o[0] for o in self.obs}),
                'samples': [{'rule': o[0], 'where': o[1], 'status': o[2], 'detail': o[3][:400]} for o in self.obs[:60]],
                'undecided_obligations': [{'rule': o[0], 'where': o[1], 'detail': o[3][:400]} for o in und],
            },
            'assumptions': self.assume,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(viol),
        }
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for rule, where, det, k in known:
            pass
        done = set()
        for rule, where, det, k in known:
            if k not in done:
                done.add(k)
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        for o in und[:20]:
            print('UNDECIDED property=%s rule=%s at=%s: %s' % (self.pid, o[0], o[1], o[3][:300]))
        if viol:
            p = os.path.join(VERIF, 'evidence', self.pid + '.violation.txt')
            with open(p, 'w') as f:
                for rule, where, det, k in viol:
                    f.write('rule: %s\nat: %s\n%s\n\n' % (rule, where, det))
            for rule, where, det, k in viol[:8]:
                print('  %s: %s: %s' % (where, rule, det[:700]))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        print('property=%s obligations=%d discharged=%d undecided=%d functions=%d wall=%.1fs' % (
            self.pid, len(self.obs), len(ok), len(und), len(self.functions), time.time() - self.t0))
        return 0

    def known_for(self, rule, where, det):
        for k in self.known:
            if k['rule'] == rule and k['where'] in where and k.get('detail', '') in det:
                return k['text']
        return None


def short(v, n=160):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


def load_known(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    d = json.load(open(p))
    return [x for x in d.get('findings', []) if x['property'] == pid]
