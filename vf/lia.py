"""Exact translation of the QF_UFBV queries into linear integer arithmetic with uninterpreted functions.

Every bit-vector term is mapped to an integer term together with an interval; an operation whose interval leaves
[0, 2^w) gets an explicit wrap-around quotient, so the translation is equisatisfiable (machine arithmetic is never
treated as mathematical).  Operations outside the fragment raise NoLia and the query goes to the bit-vector solvers.
"""
import z3
from .varset import vars_of

K = z3


import os
DBG = os.environ.get('VF_DBG')


class NoLia(Exception):
    pass


I = z3.IntSort()


class Entry:
    __slots__ = ('r', 'defs', 'kids', 'ref', 'vars', 'apps', 'mark')


MEMO = {}
SCAN = {}
_n = [0]
_mark = [0]


class Lia:
    def __init__(self, conds):
        self.bounds = {}
        self.conds = conds
        self.cur = None
        for c in conds:
            i = c.get_id()
            sc = SCAN.get(i)
            if sc is None:
                sv, self.bounds = self.bounds, {}
                self.scan(c)
                sc = SCAN[i] = (c, list(self.bounds.items()))
                self.bounds = sv
            for n, (l, h) in sc[1]:
                o = self.bounds.get(n)
                self.bounds[n] = (l, h) if o is None else (max(l, o[0]), min(h, o[1]))
        self.sigs = {}
        roots = []
        self.out = []
        for c in conds:
            e = self.entry(c, True)
            roots.append(e)
            self.out.append(e.r)
        _mark[0] += 1
        mk = _mark[0]
        self.defs = []
        self.vars = {}
        self.ufapps = []
        st = roots
        while st:
            e = st.pop()
            if e.mark == mk:
                continue
            e.mark = mk
            if e.defs:
                self.defs.extend(e.defs)
            if e.vars:
                self.vars.update(e.vars)
            if e.apps:
                self.ufapps.extend(e.apps)
            st.extend(e.kids)

    def sig(self, t):
        vs = vars_of(t)
        r = self.sigs.get(vs)
        if r is None:
            bd = self.bounds
            r = self.sigs[vs] = tuple(sorted((v, bd[v]) for v in vs if v in bd))
        return r

    def entry(self, t, boolean):
        key = (t.get_id(), self.sig(t))
        e = MEMO.get(key)
        if e is None:
            e = Entry()
            e.defs, e.kids, e.ref, e.vars, e.apps, e.mark = [], [], t, {}, [], 0
            up = self.cur
            self.cur = e
            try:
                e.r = self.B_(t) if boolean else self.T_(t)
            finally:
                self.cur = up
            MEMO[key] = e
        if self.cur is not None:
            self.cur.kids.append(e)
        return e

    # ---- bounds of variables from unit facts
    def scan(self, c):
        neg = False
        if z3.is_and(c):
            for x in c.children():
                self.scan(x)
            return
        if z3.is_not(c):
            neg = True
            c = c.children()[0]
        k = c.decl().kind()
        if k == z3.Z3_OP_EQ and not neg:
            a, b = c.children()
            if z3.is_bv_value(a):
                a, b = b, a
            if z3.is_bv_value(b):
                v = b.as_long()
                if z3.is_app_of(a, z3.Z3_OP_EXTRACT):
                    hi, lo = a.params()
                    x = a.children()[0]
                    if hi == x.size() - 1 and v == 0 and self.isvar(x):
                        self.setb(x, None, (1 << lo) - 1)
                elif self.isvar(a):
                    self.setb(a, v, v)
        elif k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = c.children()
            if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
                a, b = b, a
                k = z3.Z3_OP_ULEQ if k == z3.Z3_OP_UGEQ else z3.Z3_OP_ULT
            strict = k == z3.Z3_OP_ULT
            if neg:
                a, b = b, a
                strict = not strict
            if z3.is_bv_value(b) and self.isvar(a):
                self.setb(a, None, b.as_long() - (1 if strict else 0))
            if z3.is_bv_value(a) and self.isvar(b):
                self.setb(b, a.as_long() + (1 if strict else 0), None)

    def isvar(self, x):
        return z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED

    def setb(self, x, lo, hi):
        n = x.decl().name()
        l, h = self.bounds.get(n, (0, (1 << x.size()) - 1))
        if lo is not None:
            l = max(l, lo)
        if hi is not None:
            h = min(h, hi)
        self.bounds[n] = (l, h)

    def fresh(self, p):
        _n[0] += 1
        return z3.Int('%s?%d' % (p, _n[0]))

    def wrap(self, e, lo, hi, w):
        M = 1 << w
        if lo >= 0 and hi < M:
            return e, lo, hi
        k = self.fresh('k')
        r = self.fresh('r')
        self.cur.defs.append(r == e - k * M)
        self.cur.defs.append(z3.And(r >= 0, r < M))
        self.cur.defs.append(z3.And(k >= (lo >> w), k <= (hi >> w)))
        return r, 0, M - 1

    # ---- terms
    def T(self, t):
        return self.entry(t, False).r

    def coef(self, t):
        """(c, term) with signed coefficient"""
        w = t.size()
        if z3.is_app_of(t, z3.Z3_OP_BMUL):
            ch = t.children()
            if z3.is_bv_value(ch[0]) and len(ch) == 2:
                c = ch[0].as_long()
                if c >> (w - 1):
                    c -= 1 << w
                return c, ch[1]
        if z3.is_app_of(t, z3.Z3_OP_BNEG):
            return -1, t.children()[0]
        return 1, t

    def T_(self, t):
        w = t.size()
        M = 1 << w
        if z3.is_bv_value(t):
            v = t.as_long()
            return z3.IntVal(v), v, v
        d = t.decl()
        k = d.kind()
        ch = t.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                n = d.name()
                lo, hi = self.bounds.get(n, (0, M - 1))
                v = z3.Int(n)
                self.cur.vars[n] = (v, t)
                if lo > hi:
                    lo, hi = 0, M - 1
                self.cur.defs.append(z3.And(v >= 0, v <= M - 1))
                return v, lo, hi
            if len(ch) == 1:
                a, _, _ = self.T(ch[0])
                f = z3.Function(d.name(), I, I)
                r = f(a)
                self.cur.defs.append(z3.And(r >= 0, r <= M - 1))
                self.cur.apps.append((d, a, t, r))
                return r, 0, M - 1
            raise NoLia()
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG):
            terms = []
            if k == z3.Z3_OP_BADD:
                terms = [self.coef(x) for x in ch]
            elif k == z3.Z3_OP_BSUB:
                terms = [self.coef(ch[0])] + [(-c, x) for c, x in map(self.coef, ch[1:])]
            else:
                c, x = self.coef(t)
                if x is t or x.eq(t):
                    if k == z3.Z3_OP_BMUL and len(ch) == 2:
                        raise NoLia()
                    raise NoLia()
                terms = [(c, x)]
            e = None
            lo = hi = 0
            for c, x in terms:
                if z3.is_bv_value(x):
                    v = x.as_long()
                    if v >> (w - 1) and len(terms) > 1:
                        v -= M
                    v *= c
                    y, l, h = z3.IntVal(v), v, v
                    e = y if e is None else e + y
                    lo += l
                    hi += h
                    continue
                y, l, h = self.T(x)
                y = y if c == 1 else y * c
                e = y if e is None else e + y
                lo += min(c * l, c * h)
                hi += max(c * l, c * h)
            return self.wrap(e, lo, hi, w)
        if k == z3.Z3_OP_BNOT:
            y, l, h = self.T(ch[0])
            return (M - 1) - y, M - 1 - h, M - 1 - l
        if k == z3.Z3_OP_CONCAT:
            e = None
            lo = hi = 0
            sh = w
            for x in ch:
                sh -= x.size()
                y, l, h = self.T(x)
                y = y * (1 << sh) if sh else y
                e = y if e is None else e + y
                lo += l << sh
                hi += h << sh
            return e, lo, hi
        if k == z3.Z3_OP_ZERO_EXT:
            return self.T(ch[0])
        if k == z3.Z3_OP_SIGN_EXT:
            y, l, h = self.T(ch[0])
            w0 = ch[0].size()
            if h < 1 << (w0 - 1):
                return y, l, h
            return z3.If(y >= (1 << (w0 - 1)), y + (M - (1 << w0)), y), 0, M - 1
        if k == z3.Z3_OP_EXTRACT:
            hi_, lo_ = t.params()
            y, l, h = self.T(ch[0])
            return self.slice(y, l, h, hi_, lo_)
        if k == z3.Z3_OP_ITE:
            c = self.B(ch[0])
            a, l1, h1 = self.T(ch[1])
            b, l2, h2 = self.T(ch[2])
            return z3.If(c, a, b), min(l1, l2), max(h1, h2)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long() > 0:
            c = ch[1].as_long()
            y, l, h = self.T(ch[0])
            q = self.fresh('q')
            r = self.fresh('m')
            self.cur.defs.append(y == q * c + r)
            self.cur.defs.append(z3.And(r >= 0, r < c, q >= 0))
            if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
                return q, l // c, h // c
            return r, 0, min(h, c - 1)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            s = ch[1].as_long()
            y, l, h = self.T(ch[0])
            if s >= w:
                return z3.IntVal(0), 0, 0
            return self.wrap(y * (1 << s), l << s, h << s, w)
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
            s = ch[1].as_long()
            y, l, h = self.T(ch[0])
            return self.slice(y, l, h, w - 1, s) if s < w else (z3.IntVal(0), 0, 0)
        if k == z3.Z3_OP_BAND and len(ch) == 2 and z3.is_bv_value(ch[0]):
            m = ch[0].as_long()
            if m & (m + 1) == 0:
                y, l, h = self.T(ch[1])
                return self.slice(y, l, h, m.bit_length() - 1, 0)
        if k in (z3.Z3_OP_BOR, z3.Z3_OP_BAND, z3.Z3_OP_BXOR):
            # bitwise operation with operands of which all but one are 0/1 valued
            vs = [self.T(x) for x in ch]
            bits = [v for v in vs if v[1] >= 0 and v[2] <= 1]
            rest = [v for v in vs if not (v[1] >= 0 and v[2] <= 1)]
            if bits and len(rest) <= 1:
                if k == z3.Z3_OP_BOR:
                    b = z3.Or(*[v[0] == 1 for v in bits]) if len(bits) > 1 else bits[0][0] == 1
                elif k == z3.Z3_OP_BAND:
                    b = z3.And(*[v[0] == 1 for v in bits]) if len(bits) > 1 else bits[0][0] == 1
                else:
                    b = bits[0][0] == 1
                    for v in bits[1:]:
                        b = z3.Xor(b, v[0] == 1)
                if not rest:
                    return z3.If(b, z3.IntVal(1), z3.IntVal(0)), 0, 1
                y, l, h = rest[0]
                q = self.fresh('q')
                r = self.fresh('m')
                self.cur.defs.append(y == q * 2 + r)
                self.cur.defs.append(z3.And(r >= 0, r < 2, q >= 0))
                if k == z3.Z3_OP_BAND:
                    return z3.If(b, r, z3.IntVal(0)), 0, 1
                if k == z3.Z3_OP_BOR:
                    return z3.If(b, q * 2 + 1, y), 0, M - 1
                return z3.If(b, q * 2 + (1 - r), y), 0, M - 1
        if DBG: print('NoLia', t.sexpr()[:300], flush=True)
        raise NoLia()

    def slice(self, y, l, h, hi, lo):
        # bits hi..lo of y
        if lo:
            q = self.fresh('q')
            r = self.fresh('m')
            self.cur.defs.append(y == q * (1 << lo) + r)
            self.cur.defs.append(z3.And(r >= 0, r < (1 << lo), q >= 0))
            y, l, h = q, l >> lo, h >> lo
        n = hi - lo + 1
        if h < 1 << n:
            return y, l, h
        q = self.fresh('q')
        r = self.fresh('m')
        self.cur.defs.append(y == q * (1 << n) + r)
        self.cur.defs.append(z3.And(r >= 0, r < (1 << n), q >= 0))
        return r, 0, (1 << n) - 1

    # ---- formulas
    def B(self, t):
        return self.entry(t, True).r

    def sg(self, t):
        y, l, h = self.T(t)
        w = t.size()
        if h < 1 << (w - 1):
            return y
        return z3.If(y >= (1 << (w - 1)), y - (1 << w), y)

    def B_(self, t):
        if z3.is_true(t) or z3.is_false(t):
            return t
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            return t
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.B(c) for c in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.B(c) for c in ch])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.B(ch[0]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.B(ch[0]), self.B(ch[1]))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.B(ch[0]), self.B(ch[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.B(ch[0]), self.B(ch[1]), self.B(ch[2]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if len(ch) != 2:
                raise NoLia()
            a, b = ch
            if z3.is_bool(a):
                r = self.B(a) == self.B(b)
            elif z3.is_bv(a):
                r = self.T(a)[0] == self.T(b)[0]
            else:
                raise NoLia()
            return r if k == z3.Z3_OP_EQ else z3.Not(r)
        if k == z3.Z3_OP_ULEQ:
            return self.T(ch[0])[0] <= self.T(ch[1])[0]
        if k == z3.Z3_OP_ULT:
            return self.T(ch[0])[0] < self.T(ch[1])[0]
        if k == z3.Z3_OP_UGEQ:
            return self.T(ch[0])[0] >= self.T(ch[1])[0]
        if k == z3.Z3_OP_UGT:
            return self.T(ch[0])[0] > self.T(ch[1])[0]
        if k == z3.Z3_OP_SLEQ:
            return self.sg(ch[0]) <= self.sg(ch[1])
        if k == z3.Z3_OP_SLT:
            return self.sg(ch[0]) < self.sg(ch[1])
        if k == z3.Z3_OP_SGEQ:
            return self.sg(ch[0]) >= self.sg(ch[1])
        if k == z3.Z3_OP_SGT:
            return self.sg(ch[0]) > self.sg(ch[1])
        raise NoLia()


def check(conds, timeout_ms, want_model):
    """-> (res, bvmodel|None); raises NoLia"""
    L = Lia(conds)
    s = z3.SolverFor('QF_UFLIA')
    s.set('timeout', timeout_ms)
    s.add(*L.defs)
    s.add(*L.out)
    r = s.check()
    if r == z3.unsat:
        return 'unsat', None
    if r != z3.sat:
        return 'unknown', None
    if not want_model:
        return 'sat', None
    m = s.model()
    b = z3.SolverFor('QF_UFBV')
    b.set('timeout', 5000)
    for n, (v, t) in L.vars.items():
        b.add(t == m.eval(v, model_completion=True).as_long())
    for d, a, t, r_ in L.ufapps:
        b.add(d(z3.BitVecVal(m.eval(a, model_completion=True).as_long(), d.domain(0).size())) == m.eval(r_, model_completion=True).as_long())
    b.add(*conds)
    if b.check() == z3.sat:
        return 'sat', b.model()
    return 'unknown', None


class Inc(Lia):
    """incremental variant: a stack of asserted conditions (a path condition prefix) on one solver"""
    def __init__(self):
        self.bounds = {}
        self.sigs = {}
        self.cur = None
        self.s = z3.SolverFor('QF_UFLIA')
        self.levels = []          # (cond id, cond, undo bounds, marked entries, bad)
        self.done = set()         # entries whose definitions are asserted
        self.nbad = 0
        self.checks = 0

    def roots(self, es):
        """definitions of all entries below es not asserted yet; returns (defs, newly marked)"""
        defs, new = [], []
        st = list(es)
        done = self.done
        while st:
            e = st.pop()
            if e in done:
                continue
            done.add(e)
            new.append(e)
            if e.defs:
                defs.extend(e.defs)
            st.extend(e.kids)
        return defs, new

    def learn(self, c):
        sc = SCAN.get(c.get_id())
        if sc is None:
            sv, self.bounds = self.bounds, {}
            self.scan(c)
            sc = SCAN[c.get_id()] = (c, list(self.bounds.items()))
            self.bounds = sv
        undo = []
        for n, (l, h) in sc[1]:
            o = self.bounds.get(n)
            v = (l, h) if o is None else (max(l, o[0]), min(h, o[1]))
            if v != o:
                undo.append((n, o))
                self.bounds[n] = v
        if undo:
            self.sigs = {}
        return undo

    def unlearn(self, undo):
        if undo:
            for n, o in reversed(undo):
                if o is None:
                    del self.bounds[n]
                else:
                    self.bounds[n] = o
            self.sigs = {}

    def push(self, c):
        undo = self.learn(c)
        self.s.push()
        bad = False
        new = []
        try:
            self.cur = None
            e = self.entry(c, True)
            defs, new = self.roots([e])
            self.s.add(*defs)
            self.s.add(e.r)
        except NoLia:
            bad = True
        self.levels.append((c.get_id(), c, undo, new, bad))
        self.nbad += bad

    def pop(self):
        _, _, undo, new, bad = self.levels.pop()
        self.s.pop()
        self.done.difference_update(new)
        self.unlearn(undo)
        self.nbad -= bad

    def align(self, pc):
        i = 0
        lv = self.levels
        n = min(len(lv), len(pc))
        while i < n and lv[i][0] == pc[i].get_id():
            i += 1
        while len(lv) > i:
            self.pop()
        for c in pc[i:]:
            self.push(c)

    def check(self, pc, cond, timeout_ms, gs=None):
        """sat(pc and cond)?  ignores conditions outside the fragment (second result: their list).
        With gs, also the truth of each g in the model found"""
        self.checks += 1
        self.align(pc)
        undo = []
        new = []
        self.s.push()
        try:
            self.s.set('timeout', timeout_ms)
            self.cur = None
            undo = self.learn(cond)
            es = [self.entry(cond, True)]
            if gs is not None:
                self.unlearn(undo)
                undo = []
                es = [self.entry(cond, True)]
                ge = [self.entry(g, True) for g in gs]
                es += ge
            defs, new = self.roots(es)
            self.s.add(*defs)
            self.s.add(es[0].r)
            r = self.s.check()
            bad = [l[1] for l in self.levels if l[4]] if self.nbad else ()
            vals = None
            if gs is not None and r == z3.sat:
                m = self.s.model()
                vals = [z3.is_true(m.eval(e.r, model_completion=True)) for e in ge]
            return str(r), bad, vals
        finally:
            self.s.pop()
            self.done.difference_update(new)
            self.unlearn(undo)
