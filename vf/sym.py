"""Symbolic values and the solver front."""
import time
import z3
from . import lia

z3.set_param('model.completion', True)


class Ptr:
    """pointer into object `obj` at byte offset `off` (int or BV64)"""
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


import os
DUMP = os.environ.get('VF_DUMP')
OBJ_SHIFT = 44
MAXOBJ = 1 << 43

_simpl = z3.simplify


def norm(e):
    """simplify; collapse numerals to python values"""
    if isinstance(e, (int, bool, float, Ptr)):
        return e
    e = _simpl(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def bv(v, w):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, Ptr):
        return bv(ptr_bits(v), w)
    if z3.is_fp(v):
        return z3.fpToIEEEBV(v)
    return v


def ptr_bits(p):
    if isinstance(p, Ptr):
        b = p.obj << OBJ_SHIFT
        if isinstance(p.off, int):
            return (b + p.off) & 0xffffffffffffffff
        return norm(z3.BitVecVal(b, 64) + p.off)
    return p


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def add(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return norm(bv(a, w) + bv(b, w))


def sub(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & mask(w)
    if isinstance(b, int) and b == 0:
        return a
    return norm(bv(a, w) - bv(b, w))


def mul(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & mask(w)
    return norm(bv(a, w) * bv(b, w))


def is_conc(v):
    return isinstance(v, (int, bool))


def ult(a, b, w=64):
    if is_conc(a) and is_conc(b):
        return a < b
    return norm(z3.ULT(bv(a, w), bv(b, w)))


def ule(a, b, w=64):
    if is_conc(a) and is_conc(b):
        return a <= b
    return norm(z3.ULE(bv(a, w), bv(b, w)))


def eq(a, b, w=64):
    if is_conc(a) and is_conc(b):
        return int(a) == int(b)
    return norm(bv(a, w) == bv(b, w))


def b_not(c):
    if isinstance(c, bool):
        return not c
    return norm(z3.Not(c))


def b_and(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
        else:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return norm(z3.And(*out))


def b_or(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
        else:
            out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return norm(z3.Or(*out))


def b_implies(a, b):
    return b_or(b_not(a), b)


def to_bool(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v != 0
    if z3.is_bool(v):
        return v
    return norm(v != 0)


def ite(c, a, b, w=None):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (bool,)) or isinstance(b, bool) or z3.is_bool(a if not isinstance(a, (int, Ptr, float)) else c) and w is None:
        A = z3.BoolVal(a) if isinstance(a, bool) else a
        B = z3.BoolVal(b) if isinstance(b, bool) else b
        return norm(z3.If(c, A, B))
    return norm(z3.If(c, bv(a, w), bv(b, w)))


from .varset import vars_of


class Budget(Exception):
    pass


import os
INC = not os.environ.get('VF_NOINC')


class SolverFront:
    def __init__(self, timeout_ms=20000):
        self.timeout_ms = timeout_ms
        self.cache = {}
        self.queries = 0
        self.time = 0.0
        self.unknowns = 0
        self.max_q = 0.0
        self.deadline = None
        self.by = {}
        self.incr = None

    def slice(self, pc, cond):
        vs = set(vars_of(cond)) if cond is not None else None
        if vs is None:
            return list(pc)
        items = [(c, vars_of(c)) for c in pc]
        out = []
        ch = True
        while ch:
            ch = False
            rest = []
            for c, v in items:
                if not v or (v & vs):
                    out.append(c)
                    if not v <= vs:
                        vs |= v
                        ch = True
                else:
                    rest.append((c, v))
            items = rest
        return out

    def check(self, pc, cond, want_model=False, timeout_ms=None, nocore=False):
        """sat(pc and cond)? -> 'sat','unsat','unknown' (and model)"""
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget of the harness exhausted')
        if isinstance(cond, bool):
            if not cond:
                return ('unsat', None) if want_model else 'unsat'
            cond = None if want_model else z3.BoolVal(True)
        cs = list(pc) if (want_model or cond is None) else self.slice(pc, cond)
        key = None
        if not want_model:
            key = (frozenset(c.get_id() for c in cs), cond.get_id())
            r = self.cache.get(key)
            if r is not None:
                return r[0]
        allc = cs + ([cond] if cond is not None else [])
        t = time.time()
        res = 'unknown'
        if INC and not want_model and cond is not None and not z3.is_true(cond):
            try:
                res, bad, _ = self.inc().check(pc, cond, 60)
                who, model = 'z3-lia', None
                if res == 'sat' and bad:
                    ids = {c.get_id() for c in cs}
                    if any(b.get_id() in ids for b in bad):
                        res = 'unknown'
            except lia.NoLia:
                pass
        if res == 'unknown':
            res, model, who = self.portfolio(allc, want_model, timeout_ms or self.timeout_ms)
        dt = time.time() - t
        self.by[who] = self.by.get(who, 0) + 1
        self.queries += 1
        self.time += dt
        self.max_q = max(self.max_q, dt)
        if DUMP and dt > 2:
            s = z3.Solver(); s.add(*allc)
            open('/tmp/x/slow_%d_%s.smt2' % (self.queries, res), 'w').write('(set-logic QF_UFBV)\n' + s.to_smt2())
        if res == 'unknown':
            self.unknowns += 1
        if want_model:
            return res, model
        self.cache[key] = (res, cs, cond)
        return res

    def inc(self):
        if self.incr is None or self.incr.checks > 3000:
            self.incr = lia.Inc()
        return self.incr

    def falsify(self, pc, gs):
        """is some g false under pc?  'unsat' | list of truth values in a model | None (undetermined)"""
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget of the harness exhausted')
        t = time.time()
        try:
            conj = z3.And(*gs) if len(gs) > 1 else gs[0]
            res, bad, vals = self.inc().check(pc, z3.Not(conj), 200, gs)
        except lia.NoLia:
            return None
        finally:
            dt = time.time() - t
            self.queries += 1
            self.time += dt
            self.max_q = max(self.max_q, dt)
        self.by['z3-lia'] = self.by.get('z3-lia', 0) + 1
        if res == 'unsat':
            return 'unsat'
        if res == 'sat' and not bad and not all(vals):
            return vals
        return None

    def portfolio(self, cs, want_model, timeout_ms):
        try:
            r, m = lia.check(cs, min(timeout_ms, 1500), want_model)
            if r != 'unknown':
                return r, m, 'z3-lia'
        except lia.NoLia:
            pass
        fp = any(has_fp(c) for c in cs)
        for who, to in (('z3-bv', 2500), ('cvc5', 8000), ('z3-bv', timeout_ms)):
            if to > timeout_ms and who != 'z3-bv':
                continue
            if who == 'cvc5':
                if fp:
                    continue
                r = cvc5_check(cs, to)
                if r == 'unsat' or (r == 'sat' and not want_model):
                    return r, None, 'cvc5'
                continue
            s = z3.Solver() if fp else z3.SolverFor('QF_UFBV')
            s.set('timeout', min(to, timeout_ms))
            s.add(*cs)
            r = s.check()
            if r == z3.unsat:
                return 'unsat', None, who
            if r == z3.sat:
                return 'sat', (s.model() if want_model else None), who
        return 'unknown', None, 'none'


_fp = {}


def has_fp(e):
    k = e.get_id()
    r = _fp.get(k)
    if r is None:
        st = [e]
        seen = set()
        f = False
        while st and not f:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_fp(x) or z3.is_fprm(x):
                f = True
            st.extend(x.children())
        r = _fp[k] = (e, f)
    return r[1]


def cvc5_check(cs, timeout_ms):
    import subprocess
    s = z3.Solver()
    s.add(*cs)
    txt = '(set-logic QF_UFBV)\n' + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--solve-bv-as-int=sum', '--tlimit=%d' % timeout_ms, '-'], input=txt, capture_output=True, text=True, timeout=timeout_ms / 1000 + 2)
    except Exception:
        return 'unknown'
    o = p.stdout.strip()
    return o if o in ('sat', 'unsat') else 'unknown'


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def as_bit(v):
    """boolean b with v == ite(b, 1, 0), or None"""
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return bool(v) if v in (0, 1) else None
    if z3.is_expr(v) and z3.is_bv(v):
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            c, x, y = v.children()
            if z3.is_bv_value(x) and z3.is_bv_value(y):
                if x.as_long() == 1 and y.as_long() == 0:
                    return c
                if x.as_long() == 0 and y.as_long() == 1:
                    return norm(z3.Not(c))
        if z3.is_app_of(v, z3.Z3_OP_CONCAT) and v.num_args() == 2:
            x, y = v.children()
            if z3.is_bv_value(x) and x.as_long() == 0:
                return as_bit(y)
    return None
