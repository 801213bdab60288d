"""Object memory: every allocation is an object with a (possibly symbolic) size and a persistent log of writes."""
import z3
from .sym import *


class Unsupported(Exception):
    """construct outside the verifier's reach: the proof attempt is undecided"""


class Hoist(Exception):
    """a decision inside a loop body that does not depend on the loop: make it before the loop"""

    def __init__(self, conds=None, lazy=None):
        self.conds = conds
        self.lazy = lazy


class Fork(Exception):
    """re-execute the current instruction once per branch condition"""

    def __init__(self, conds):
        self.conds = conds


class Node:
    __slots__ = ('kind', 'off', 'n', 'v', 'src', 'soff', 'prev', 'depth', 'tag')

    def __init__(self, kind, off, n, v, prev, src=None, soff=None):
        self.kind = kind
        self.off = off
        self.n = n
        self.v = v
        self.prev = prev
        self.src = src
        self.soff = soff
        self.depth = prev.depth + 1 if prev else 1
        self.tag = None


class Obj:
    __slots__ = ('id', 'size', 'name', 'kind', 'alive', 'writable', 'node', 'base', 'fn', 'gen')

    def __init__(self, id, size, name, kind, base, writable=True, fn=None, node=None, alive=True, gen=0):
        self.id = id
        self.size = size
        self.name = name
        self.kind = kind
        self.alive = alive
        self.writable = writable
        self.node = node
        self.base = base
        self.fn = fn
        self.gen = gen

    def upd(self, **kw):
        o = Obj(self.id, self.size, self.name, self.kind, self.base, self.writable, self.fn, self.node, self.alive, self.gen)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


# base kinds:
#  ('zero',) ('bytes', b) ('uninit', uf) ('fresh', uf) ('cstr', uf, L) ('lazy', id, elemsize, initfn, count)

def sdiff(a, b):
    """signed constant difference a-b if concrete else None (and the term)"""
    d = sub(a, b)
    if isinstance(d, int):
        return sgn(d, 64), d
    return None, d


class Memory:
    """mixin used by the engine: operations on a state's objects"""

    in_view = 0

    # ---- decisions under the path condition
    def must(self, st, c):
        if isinstance(c, bool):
            return c
        return self.solver.check(st.pc, z3.Not(c)) == 'unsat'

    def may(self, st, c):
        if isinstance(c, bool):
            return c
        return self.solver.check(st.pc, c) != 'unsat'

    # ---- reading
    def read(self, st, node, base, off, n):
        """value of n bytes at off in a content snapshot. returns int | BV(8n) | Ptr"""
        while node is not None:
            k = node.kind
            if k == 'P':
                es, at = node.off
                c = self.split_index(st, off, es)[1]
                if not isinstance(c, int):
                    raise Unsupported('unaligned access to lazy array')
                if c + n <= at or c >= at + node.n:
                    if c + n > es:
                        raise Unsupported('access across elements')
                    node = node.prev
                    continue
                if c >= at and c + n <= at + node.n:
                    return self.uf_read(node.v, off, n)
                return self.read_split(st, node, base, off, n)
            cd, d = sdiff(off, node.off)
            if k == 'S':
                if node.tag is not None and not self.in_view and (cd is None or -n < cd < node.n):
                    node.tag[0] = 1
                if cd is not None:
                    if cd == 0 and n == node.n:
                        return node.v
                    if cd >= node.n or cd <= -n:
                        node = node.prev
                        continue
                    if cd >= 0 and cd + n <= node.n:
                        return self.extract(node.v, node.n, cd, n)
                    return self.read_split(st, node, base, off, n)
                # symbolic difference
                ov = b_or(ult(d, node.n), ult(norm(-bv(d, 64)), n)) if n > 1 or node.n > 1 else eq(d, 0)
                if not self.may(st, ov):
                    node = node.prev
                    continue
                if n == node.n:
                    e = eq(d, 0)
                    if self.must(st, e):
                        return node.v
                    if n == 1 and not isinstance(node.v, Ptr):
                        hit, st.uninit_hit = st.uninit_hit, False
                        b = self.read(st, node.prev, base, off, n)
                        if st.uninit_hit:               # only uninitialised when the stored byte is not the one read
                            st.uninit_hit = hit
                            raise Fork([e, b_not(e)])
                        st.uninit_hit = hit
                        return ite(e, node.v, b, 8)
                    if self.may(st, e):
                        raise Fork([e, b_not(e)])
                if n < node.n:
                    inside = ule(d, node.n - n)
                    for kk in range(0, node.n - n + 1):
                        e = eq(d, kk)
                        if self.must(st, e):
                            return self.extract(node.v, node.n, kk, n)
                    for kk in range(0, node.n - n + 1):
                        e = eq(d, kk)
                        if self.may(st, e):
                            raise Fork([e, b_not(e)])
                if n > 1:
                    return self.read_split(st, node, base, off, n)
                raise Unsupported('overlapping symbolic read')
            # ranged nodes: copy / fill / havoc
            ln = node.n
            if cd is not None and isinstance(ln, int):
                if cd >= ln or cd <= -n:
                    node = node.prev
                    continue
                if cd >= 0 and cd + n <= ln:
                    return self.read_ranged(st, node, off, d, n)
                return self.read_split(st, node, base, off, n)
            if n == 1:
                inside = ult(d, ln)
            else:
                inside = b_and(ule(n, ln), ule(d, sub(ln, n)))
            if self.must(st, inside):
                return self.read_ranged(st, node, off, d, n)
            if n == 1:
                disj = b_not(inside)
            else:
                # disjoint: off+n <= node.off or off >= node.off+ln  (no wrap: sizes < 2^43)
                nd = norm(-bv(d, 64))
                disj = b_and(b_not(ult(d, ln)), b_or(eq(ln, 0), b_not(ult(nd, n))))
            if self.must(st, disj):
                node = node.prev
                continue
            if n == 1:
                hit, st.uninit_hit = st.uninit_hit, False
                a = self.read_ranged(st, node, off, d, n)
                b = self.read(st, node.prev, base, off, n)
                if isinstance(a, Ptr) or isinstance(b, Ptr) or st.uninit_hit:
                    st.uninit_hit = hit
                    raise Fork([inside, disj])
                st.uninit_hit = hit
                return ite(inside, a, b, 8)
            i_may = self.may(st, inside)
            d_may = self.may(st, disj)
            mid = b_and(b_not(inside), b_not(disj))
            if i_may or d_may:
                cs = []
                if i_may:
                    cs.append(inside)
                if d_may:
                    cs.append(disj)
                if self.may(st, mid):
                    cs.append(mid)
                if len(cs) > 1:
                    raise Fork(cs)
            return self.read_split(st, node, base, off, n)
        return self.read_base(st, base, off, n)

    def read_ranged(self, st, node, off, d, n):
        if node.kind == 'C':
            sn, sb = node.src
            return self.read(st, sn, sb, add(node.soff, d), n)
        if node.kind == 'F':
            v = node.v
            if isinstance(v, int):
                r = 0
                for _ in range(n):
                    r = (r << 8) | v
                return r
            return norm(z3.Concat(*([v] * n))) if n > 1 else v
        if node.kind == 'H':
            return self.uf_read(node.v, off, n)
        raise Unsupported(node.kind)

    def uf_read(self, uf, off, n):
        f = z3.Function(uf, z3.BitVecSort(64), z3.BitVecSort(8))
        o = bv(off, 64)
        bs = [f(norm_bv(o + i)) for i in range(n)]
        if n == 1:
            return bs[0]
        return z3.Concat(*bs[::-1])

    def extract(self, v, vn, at, n):
        if isinstance(v, Ptr):
            v = ptr_bits(v)
        if isinstance(v, int):
            return (v >> (8 * at)) & mask(8 * n)
        return norm(z3.Extract(8 * (at + n) - 1, 8 * at, bv(v, 8 * vn)))

    def read_split(self, st, node, base, off, n):
        if n == 1:
            raise Unsupported('split of one byte')
        parts = [self.read(st, node, base, add(off, i), 1) for i in range(n)]
        if all(isinstance(p, int) for p in parts):
            r = 0
            for p in reversed(parts):
                r = (r << 8) | p
            return r
        return norm(z3.Concat(*[bv(p, 8) for p in reversed(parts)]))

    def read_base(self, st, base, off, n):
        k = base[0]
        if k == 'zero':
            return 0
        if k == 'bytes':
            b = base[1]
            if isinstance(off, int):
                return int.from_bytes(b[off:off + n], 'little')
            if len(b) > 4096:
                raise Unsupported('symbolic index into a large constant')
            r = int.from_bytes(b[len(b) - n:], 'little')
            for i in range(len(b) - n, -1, -1):
                e = eq(off, i)
                if e is False:
                    continue
                r = ite(e, int.from_bytes(b[i:i + n], 'little'), r, 8 * n)
            return r
        if k == 'uninit':
            st.uninit_hit = True
            return self.uf_read(base[1], off, n)
        if k == 'fresh':
            return self.uf_read(base[1], off, n)
        if k == 'cstr':
            uf, L = base[1], base[2]
            v = self.uf_read(uf, off, n)
            f = z3.Function(uf, z3.BitVecSort(64), z3.BitVecSort(8))
            for i in range(n):
                o = add(off, i)
                b = f(bv(o, 64))
                c1 = b_implies(ult(o, L), norm(b != 0))
                c2 = b_implies(eq(o, L), norm(b == 0))
                for c in (c1, c2):
                    if not isinstance(c, bool):
                        self.assume_cond(st, c)
            return v
        if k == 'lazy':
            return self.read_lazy(st, base, off, n)
        raise Unsupported('base ' + k)

    # ---- lazily initialised arrays
    def read_lazy(self, st, base, off, n):
        _, lid, es, initfn, count = base
        idx, inner = self.split_index(st, off, es)
        ents = st.lazy.get(lid, ())
        for (ix, node, b) in ents:
            e = eq(ix, idx)
            if self.must(st, e):
                return self.read(st, node, b, inner, n)
        for (ix, node, b) in ents:
            e = eq(ix, idx)
            if self.may(st, e):
                raise Fork([e, b_not(e)])
        inr = ult(idx, count)
        if not self.must(st, inr):
            if self.may(st, inr):
                raise Fork([inr, b_not(inr)])
            # beyond the initialised prefix
            st.uninit_hit = True
            return self.uf_read('lazyrest_%d' % lid, off, n)
        # materialise: run init function on a scratch object
        self.lazy_materialise(st, base, idx)
        return self.read_lazy(st, base, off, n)

    def split_index(self, st, off, es):
        if isinstance(off, int):
            return off // es, off % es
        o = bv(off, 64)
        # syntactic: off == es*t + c
        off_s = norm(o)
        for c in range(0, es):
            pass
        k = z3.simplify(o)
        c = 0
        rest = k
        if z3.is_app_of(k, z3.Z3_OP_BADD):
            ch = k.children()
            nums = [x for x in ch if z3.is_bv_value(x)]
            oth = [x for x in ch if not z3.is_bv_value(x)]
            if nums:
                c = nums[0].as_long()
            rest = oth
        else:
            rest = [k]
        if es == 1:
            return norm(o), 0
        ts = []
        for r in rest:
            t = div_term(r, es)
            if t is None:
                ts = None
                break
            ts.append(t)
        if ts is not None:
            cs = sgn(c, 64)
            q = cs // es
            inner = cs - q * es
            t = z3.BitVecVal(q, 64)
            for x in ts:
                t = t + x
            return norm(t), inner
        q = norm(z3.UDiv(o, z3.BitVecVal(es, 64)))
        r = norm(z3.URem(o, z3.BitVecVal(es, 64)))
        if not isinstance(r, int):
            # decide by the solver
            res, m = self.solver.check(st.pc, True, want_model=True)
            if m is not None:
                rv = m.eval(r, model_completion=True).as_long()
                if self.must(st, eq(r, rv)):
                    r = rv
                else:
                    raise Unsupported('unaligned access to lazy array')
        return q, r

    # ---- writing
    def write(self, st, oid, off, n, v):
        o = st.mem[oid]
        nd = Node('S', off, n, v, o.node)
        st.mem[oid] = o.upd(node=nd)

    def write_ranged(self, st, oid, kind, off, n, v=None, src=None, soff=None):
        o = st.mem[oid]
        st.mem[oid] = o.upd(node=Node(kind, off, n, v, o.node, src, soff))


def norm_bv(e):
    return z3.simplify(e)


def div_term(t, es):
    """t / es when t is syntactically es*u (no-wrap argument: offsets < 2^43)"""
    if z3.is_app_of(t, z3.Z3_OP_BMUL):
        ch = t.children()
        if z3.is_bv_value(ch[0]):
            c = ch[0].as_long()
            if c % es == 0:
                r = z3.BitVecVal(c // es, 64)
                for x in ch[1:]:
                    r = r * x
                return z3.simplify(r)
    if z3.is_app_of(t, z3.Z3_OP_CONCAT):
        # (concat (extract hi..0 x) 0...0): power of two multiple
        ch = t.children()
        if z3.is_bv_value(ch[-1]) and ch[-1].as_long() == 0:
            w = ch[-1].size()
            if (1 << w) % es == 0:
                sh = es.bit_length() - 1
                if (1 << sh) == es:
                    # logical shift right loses nothing since low bits are zero; top bits were dropped by the product
                    inner = ch[:-1]
                    x = inner[0] if len(inner) == 1 else z3.Concat(*inner)
                    r = z3.ZeroExt(64 - x.size(), x)
                    if w > sh:
                        r = r << (w - sh)
                    # z3 rewrites 8*i to concat(extract(60,0,i),0b000): recover i when that is what it was
                    if z3.is_app_of(x, z3.Z3_OP_EXTRACT):
                        hi, lo = x.params()
                        y = x.children()[0]
                        if lo == 0 and hi == 63 - w and y.size() == 64 and w == sh:
                            return y
                    return z3.simplify(r)
    return None
