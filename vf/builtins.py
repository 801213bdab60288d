"""Models of the verifier intrinsics (vf_*) and of the C library functions the code uses."""
import z3
from . import ir
from .sym import *
from .mem import *
from .engine import BUILTINS, PathEnd, Frame


def B(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return deco


def cstring(e, st, p):
    """python bytes of a concrete NUL terminated string"""
    r = e.resolve_ptr(st, p)
    o = e.obj(st, r.obj)
    out = bytearray()
    off = r.off
    while True:
        c = e.read(st, o.node, o.base, off, 1)
        if not isinstance(c, int):
            raise Unsupported('symbolic string where a constant is needed')
        if c == 0:
            return bytes(out)
        out.append(c)
        off += 1


def nm(e, st, p):
    return cstring(e, st, p).decode()


def fname(e, st, p):
    r = e.resolve_ptr(st, p)
    return e.fn_of[r.obj]


# ---------------------------------------------------------------- specification intrinsics
def _nd(w):
    def f(e, st, fr, ins, a):
        name = nm(e, st, a[0])
        v = e.fresh(name, w)
        st.nd.append((name, w, v))
        return v
    return f


BUILTINS['vf_u64'] = _nd(64)
BUILTINS['vf_u32'] = _nd(32)
BUILTINS['vf_u16'] = _nd(16)
BUILTINS['vf_u8'] = _nd(8)


@B('vf_bool')
def _(e, st, fr, ins, a):
    name = nm(e, st, a[0])
    v = e.fresh(name, 32)
    st.nd.append((name, 32, v))
    e.assume_cond(st, norm(z3.ULE(v, 1)))
    return v


@B('vf_range')
def _(e, st, fr, ins, a):
    """vf_range(name, lo, hi, small_hi)"""
    name = nm(e, st, a[0])
    v = e.fresh(name, 64)
    st.nd.append((name, 64, v))
    hi = a[2] if e.mode == 'proof' else a[3]
    e.assume_cond(st, ule(a[1], v))
    e.assume_cond(st, ule(v, hi))
    return v


@B('vf_assume')
def _(e, st, fr, ins, a):
    c = to_bool(a[0])
    if isinstance(c, bool):
        if not c:
            raise PathEnd()
        return None
    e.assume_cond(st, c)
    if e.solver.check(st.pc, z3.BoolVal(True)) == 'unsat' or not e.may(st, c):
        raise PathEnd()
    return None


@B('vf_assert')
def _(e, st, fr, ins, a):
    e.oblige(st, to_bool(a[0]), 'assert', nm(e, st, a[1]), ins)
    return None


@B('vf_cover')
def _(e, st, fr, ins, a):
    n = nm(e, st, a[0])
    if not st.quiet and not st.ghost:
        if not e.covers.get(n):
            e.covers[n] = e.solver.check(st.pc, True, want_model=True)[0] == 'sat'
    return None


@B('vf_obj')
def _(e, st, fr, ins, a):
    """vf_obj(name, size): object with arbitrary content"""
    name = nm(e, st, a[0])
    uf = e.fresh_uf('obj_' + name)
    o = e.new_obj(st, a[1], name, 'heap', ('fresh', uf))
    o.gen = 1
    st.nd.append((name, 'bytes', (o.id, a[1], uf)))
    return Ptr(o.id, 0)


@B('vf_raw')
def _(e, st, fr, ins, a):
    """uninitialised object"""
    name = nm(e, st, a[0])
    o = e.new_obj(st, a[1], name, 'heap', ('uninit', e.fresh_uf('raw_' + name)))
    o.gen = 1
    return Ptr(o.id, 0)


@B('vf_cstr')
def _(e, st, fr, ins, a):
    """vf_cstr(name, max, small): NUL terminated string of arbitrary length and content"""
    name = nm(e, st, a[0])
    L = e.fresh(name + '.len', 64)
    st.nd.append((name + '.len', 64, L))
    e.assume_cond(st, ule(L, a[1] if e.mode == 'proof' else a[2]))
    uf = e.fresh_uf('str_' + name)
    size = norm(L + 1)
    o = e.new_obj(st, size, name, 'heap', ('cstr', uf, L))
    o.gen = 1
    st.nd.append((name, 'bytes', (o.id, L, uf)))
    if e.mode != 'proof':
        f = z3.Function(uf, z3.BitVecSort(64), z3.BitVecSort(8))
        hi = a[2]
        for i in range(hi if isinstance(hi, int) else 0):
            e.assume_cond(st, b_implies(ult(i, L), norm(f(z3.BitVecVal(i, 64)) != 0)))
    return Ptr(o.id, 0)


@B('vf_lazy_')
def _(e, st, fr, ins, a):
    """vf_lazy(name, count, capacity, elemsize, initfn): array of capacity elements, first count satisfy initfn's shape"""
    name = nm(e, st, a[0])
    e.obj_n += 1
    lid = e.obj_n
    init = fname(e, st, a[4])
    o = e.new_obj(st, mul(a[2], a[3]), name, 'heap', ('lazy', lid, a[3], init, a[1]))
    o.gen = 1
    return Ptr(o.id, 0)


@B('vf_lazy_reset')
def _(e, st, fr, ins, a):
    """forget what was read from this lazy array: its elements are arbitrary (of the shape init gives them) again"""
    r = e.resolve_ptr(st, a[0])
    base = st.mem[r.obj].base
    if base[0] != 'lazy':
        raise Unsupported('vf_lazy_reset of an array that is not lazy')
    st.lazy[base[1]] = ()
    return None


@B('vf_inv')
def _(e, st, fr, ins, a):
    st.invs = st.invs + (fname(e, st, a[0]),)
    return None


@B('vf_term')
def _(e, st, fr, ins, a):
    st.terms = st.terms + (fname(e, st, a[0]),)
    return None


@B('vf_inv_clear')
def _(e, st, fr, ins, a):
    st.invs = ()
    st.terms = ()
    st.watch = ()
    return None


@B('vf_loop_buf')
def _(e, st, fr, ins, a):
    """for invariants: the growing block owned by a local variable of the loop (null elsewhere)"""
    return getattr(e, 'loop_buf', 0)


@B('vf_unroll')
def _(e, st, fr, ins, a):
    """loops are first unrolled up to n iterations (complete when every path ends before); beyond that they are cut"""
    e.unroll_n = a[0]
    return None


@B('vf_watch')
def _(e, st, fr, ins, a):
    st.watch = st.watch + (a[0],)
    return None


@B('vf_havoc')
def _(e, st, fr, ins, a):
    if isinstance(a[1], int) and a[1] == 0:
        return None
    d = e.access(st, a[0], a[1], ins, 'havoc', write=True)
    if d is None:
        return None
    if isinstance(a[1], int) and a[1] in (1, 2, 4, 8):
        e.write(st, d.obj, d.off, a[1], e.fresh('hvc', 8 * a[1]))
        return None
    e.write_ranged(st, d.obj, 'H', d.off, a[1], e.fresh_uf('havoc'))
    return None


@B('vf_guard')
def _(e, st, fr, ins, a):
    """vf_guard(p, n, flag): from now on the code under proof may touch these bytes only while *flag != 0"""
    r = e.resolve_ptr(st, a[0])
    fl = e.resolve_ptr(st, a[2])
    g = dict(st.meta.get('guards', {}))
    g[r.obj] = g.get(r.obj, ()) + ((r.off, a[1], fl),)
    st.meta['guards'] = g
    return None


@B('vf_shared')
def _(e, st, fr, ins, a):
    """vf_shared(p, n, log, flag): other threads change these bytes at any time (unless *flag != 0); every change made by
    the code under proof must be one atomic step and is recorded in log = {steps, old, new}"""
    r = e.resolve_ptr(st, a[0])
    lg = e.resolve_ptr(st, a[2])
    fl = None if a[3] == 0 else e.resolve_ptr(st, a[3])
    g = dict(st.meta.get('shared', {}))
    g[r.obj] = g.get(r.obj, ()) + ((r.off, a[1], lg, fl),)
    st.meta['shared'] = g
    return None


@B('vf_live')
def _(e, st, fr, ins, a):
    return sum(1 for o in st.mem.values() if o.kind == 'heap' and o.alive is True and o.gen == 0)


@B('vf_valid')
def _(e, st, fr, ins, a):
    """1 iff n bytes at p are inside a live object"""
    r = e.resolve_ptr(st, a[0])
    if not isinstance(r, Ptr):
        return 0
    o = e.obj(st, r.obj)
    if o.alive is not True or o.kind == 'func':
        return 0
    c = b_and(ule(a[1], o.size), ule(r.off, sub(o.size, a[1])))
    if isinstance(c, bool):
        return int(c)
    return norm(z3.If(c, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))


@B('vf_alive')
def _(e, st, fr, ins, a):
    r = e.resolve_ptr(st, a[0])
    if not isinstance(r, Ptr):
        return 0
    return 1 if e.obj(st, r.obj).alive is True else 0


@B('vf_heapify')
def _(e, st, fr, ins, a):
    """hand the object to the code under proof: it counts as a live heap allocation"""
    r = e.resolve_ptr(st, a[0])
    st.mem[r.obj] = e.obj(st, r.obj).upd(gen=0)
    return None


@B('vf_objsize')
def _(e, st, fr, ins, a):
    r = e.resolve_ptr(st, a[0])
    if not isinstance(r, Ptr):
        return 0
    return sub(e.obj(st, r.obj).size, r.off)


@B('vf_malloc_may_fail')
def _(e, st, fr, ins, a):
    st.mayfail = bool(a[0])
    return None


@B('vf_is_proof')
def _(e, st, fr, ins, a):
    return 1 if e.mode == 'proof' else 0


@B('vf_is_verifier')
def _(e, st, fr, ins, a):
    return 1


@B('vf_stop')
def _(e, st, fr, ins, a):
    raise PathEnd()


@B('vf_ite')
def _(e, st, fr, ins, a):
    return ite(to_bool(a[0]), a[1], a[2], 64)


@B('vf_and')
def _(e, st, fr, ins, a):
    c = b_and(to_bool(a[0]), to_bool(a[1]))
    return int(c) if isinstance(c, bool) else norm(z3.If(c, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))


@B('vf_imp')
def _(e, st, fr, ins, a):
    c = b_or(b_not(to_bool(a[0])), to_bool(a[1]))
    return int(c) if isinstance(c, bool) else norm(z3.If(c, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))


@B('vf_peek')
def _(e, st, fr, ins, a):
    """vf_peek(p, i, n): byte p[i] if i<n else 0, as one term (no path split)"""
    c = ult(a[1], a[2])
    if c is False or (not isinstance(c, bool) and not e.may(st, c)):
        return 0
    r = e.resolve_ptr(st, a[0])
    if not isinstance(r, Ptr):
        return 0
    o = e.obj(st, r.obj)
    v = e.read(st, o.node, o.base, add(r.off, a[1]), 1)
    if isinstance(v, Ptr):
        v = ptr_bits(v) & 255
    return ite(c, v, 0, 8)


@B('vf_peek64')
def _(e, st, fr, ins, a):
    """vf_peek64(p, i, n): 64-bit element p[i] if i<n else 0, as one term"""
    c = ult(a[1], a[2])
    if c is False or (not isinstance(c, bool) and not e.may(st, c)):
        return 0
    r = e.resolve_ptr(st, a[0])
    if not isinstance(r, Ptr):
        return 0
    o = e.obj(st, r.obj)
    v = e.read(st, o.node, o.base, add(r.off, mul(a[1], 8)), 8)
    if isinstance(v, Ptr):
        v = ptr_bits(v)
    return ite(c, v, 0, 64)


# ---------------------------------------------------------------- allocation
def fork_bool(e, st, ins, name):
    """nondeterministic choice recorded in the trace; implemented by re-execution"""
    k = ('choice', id(ins), len(st.nd), len(st.frames))
    if k in st.meta:
        v = st.meta.pop(k)
        st.nd.append((name, 32, v))
        return v
    raise ForkMeta(k)


class ForkMeta(Exception):
    def __init__(self, k):
        self.k = k


def do_malloc(e, st, ins, n, base=None, name='malloc'):
    big = b_not(ult(n, MAXOBJ))
    if not isinstance(big, bool):
        if e.may(st, big):
            raise Fork([big, b_not(big)]) if e.may(st, b_not(big)) else PathEnd()
    elif big:
        return None
    if st.mayfail and not st.ghost:
        if fork_bool(e, st, ins, 'alloc_fails'):
            return None
    o = e.new_obj(st, n, name, 'heap', base or ('uninit', e.fresh_uf(name)))
    return o


def sysalloc(e, st, ins):
    """library code reaches the system allocator only through lib/alloc.c (an obligation owned by P17; the path goes on)"""
    l = e.loc(ins)
    if st.ghost or st.quiet or not l.startswith('lib/'):
        return
    key = ('allocator', l, 'library memory comes from the configured allocator')
    rec = e.obl.setdefault(key, [0, 'ok', None])
    rec[0] += 1
    if not l.startswith('lib/alloc.c') and rec[1] != 'fail':
        rec[1] = 'fail'
        e.record_failure(st, z3.BoolVal(True), key)


@B('malloc')
def _(e, st, fr, ins, a):
    sysalloc(e, st, ins)
    o = do_malloc(e, st, ins, a[0])
    return 0 if o is None else Ptr(o.id, 0)


@B('calloc')
def _(e, st, fr, ins, a):
    sysalloc(e, st, ins)
    o = do_malloc(e, st, ins, mul(a[0], a[1]), ('zero',))
    return 0 if o is None else Ptr(o.id, 0)


def check_free(e, st, p, ins):
    if isinstance(p, int) and p == 0:
        return None
    r = e.resolve_ptr(st, p)
    if not isinstance(r, Ptr):
        e.oblige(st, False, 'mem', 'free of a valid heap pointer', ins)
        raise PathEnd()
    o = e.obj(st, r.obj)
    e.oblige(st, o.kind == 'heap', 'mem', 'free of a heap pointer', ins)
    e.oblige(st, o.alive is True, 'mem', 'no double free', ins)
    e.oblige(st, eq(r.off, 0), 'mem', 'free of the start of an allocation', ins)
    return o


@B('free')
def _(e, st, fr, ins, a):
    sysalloc(e, st, ins)
    o = check_free(e, st, a[0], ins)
    if o is not None:
        st.mem[o.id] = o.upd(alive=False)
    return None


@B('realloc')
def _(e, st, fr, ins, a):
    sysalloc(e, st, ins)
    o = check_free(e, st, a[0], ins)
    n = a[1]
    z = eq(n, 0)
    if not isinstance(z, bool):
        if e.may(st, z):
            if e.may(st, b_not(z)):
                raise Fork([z, b_not(z)])
            z = True
        else:
            z = False
    if z and o is not None:
        # glibc: realloc(p, 0) frees p and returns NULL
        st.mem[o.id] = o.upd(alive=False)
        return 0
    new = do_malloc(e, st, ins, n, name='realloc')
    if new is None:
        return 0
    if o is not None:
        c = ule(o.size, n)
        ln = ite(c, o.size, n, 64)
        st.mem[new.id] = new.upd(node=Node('C', 0, ln, None, None, (o.node, o.base), 0))
        st.mem[o.id] = e.obj(st, o.id).upd(alive=False)
    return Ptr(new.id, 0)


# ---------------------------------------------------------------- strings
def strlen_at(e, st, node, base, off):
    if node is None:
        if base[0] == 'cstr':
            L = base[2]
            return sub(L, off)
        if base[0] == 'bytes' and isinstance(off, int):
            i = base[1].index(0, off)
            return i - off
    if node is not None and node.kind == 'C':
        cd, d = sdiff(off, node.off)
        inside = ult(d, node.n)
        if e.must(st, inside):
            L = strlen_at(e, st, node.src[0], node.src[1], add(node.soff, d))
            if L is not None and e.must(st, ult(add(L, d), node.n)):
                return L
    if node is not None and isinstance(off, int):
        # concrete scan
        i = off
        while i < off + 4096:
            c = e.read(st, node, base, i, 1)
            if not isinstance(c, int):
                return None
            if c == 0:
                return i - off
            i += 1
    return None


@B('strlen')
def _(e, st, fr, ins, a):
    r = e.access(st, a[0], 1, ins, 'strlen')
    o = st.mem[r.obj]
    L = strlen_at(e, st, o.node, o.base, r.off)
    if L is None:
        # scan with forks (bounded by the object when its size is concrete)
        if not isinstance(o.size, int) or not isinstance(r.off, int) or o.size - r.off > 64:
            raise Unsupported('strlen of an unstructured object')
        i = 0
        while True:
            if r.off + i >= o.size:
                e.oblige(st, False, 'mem', 'strlen stays inside the object', ins)
                raise PathEnd()
            c = e.read(st, o.node, o.base, r.off + i, 1)
            z = eq(c, 0, 8)
            if isinstance(z, bool):
                if z:
                    break
            else:
                t, f = e.may(st, z), e.may(st, b_not(z))
                if t and f:
                    raise Fork([z, b_not(z)])
                if t:
                    break
            i += 1
        return i
    e.oblige(st, ult(add(r.off, L), o.size), 'mem', 'strlen stays inside the object', ins)
    return L


def same_loc(x, y):
    return x.obj == y.obj and isinstance(sub(x.off, y.off), int) and sub(x.off, y.off) == 0


@B('strcpy', 'stpcpy')
def _(e, st, fr, ins, a):
    L = BUILTINS['strlen'](e, st, fr, ins, [a[1]])
    e.copy(st, a[0], a[1], add(L, 1), ins, overlap_ok=False)
    return a[0]


@B('memcmp')
def _(e, st, fr, ins, a):
    n = a[2]
    if not isinstance(n, int):
        raise Unsupported('memcmp of symbolic length')
    if n == 0:
        return 0
    x = e.access(st, a[0], n, ins, 'memcmp')
    y = e.access(st, a[1], n, ins, 'memcmp')
    ox, oy = st.mem[x.obj], st.mem[y.obj]
    r = 0
    for i in range(n - 1, -1, -1):
        p = e.read(st, ox.node, ox.base, add(x.off, i), 1)
        q = e.read(st, oy.node, oy.base, add(y.off, i), 1)
        r = ite(eq(p, q, 8), r, ite(ult(p, q, 8), mask(32), 1, 32), 32)
    return r


def _strcmp(e, st, fr, ins, a, limit=None):
    x = e.resolve_ptr(st, a[0])
    y = e.resolve_ptr(st, a[1])
    x = e.access(st, a[0], 1, ins, 'strcmp')
    y = e.access(st, a[1], 1, ins, 'strcmp')
    if same_loc(x, y):
        return 0
    ox, oy = st.mem[x.obj], st.mem[y.obj]
    i = 0
    while True:
        if limit is not None and i >= limit:
            return 0
        e.access(st, Ptr(x.obj, add(x.off, i)), 1, ins, 'strcmp')
        e.access(st, Ptr(y.obj, add(y.off, i)), 1, ins, 'strcmp')
        p = e.read(st, ox.node, ox.base, add(x.off, i), 1)
        q = e.read(st, oy.node, oy.base, add(y.off, i), 1)
        d = eq(p, q, 8)
        if not isinstance(d, bool):
            t, f = e.may(st, d), e.may(st, b_not(d))
            if t and f:
                raise Fork([d, b_not(d)])
            d = t
        if not d:
            return ite(ult(p, q, 8), mask(32), 1, 32)
        z = eq(p, 0, 8)
        if not isinstance(z, bool):
            t, f = e.may(st, z), e.may(st, b_not(z))
            if t and f:
                raise Fork([z, b_not(z)])
            z = t
        if z:
            return 0
        i += 1
        if i > 64:
            raise Unsupported('strcmp of long strings')


@B('strcmp')
def _(e, st, fr, ins, a):
    return _strcmp(e, st, fr, ins, a)


@B('strncmp')
def _(e, st, fr, ins, a):
    if not isinstance(a[2], int):
        raise Unsupported('strncmp symbolic length')
    return _strcmp(e, st, fr, ins, a, a[2])


@B('memcpy', 'vf_copy')
def _(e, st, fr, ins, a):
    e.copy(st, a[0], a[1], a[2], ins, overlap_ok=False)
    return a[0]


@B('memmove')
def _(e, st, fr, ins, a):
    e.copy(st, a[0], a[1], a[2], ins, overlap_ok=True)
    return a[0]


@B('memset')
def _(e, st, fr, ins, a):
    n = a[2]
    if isinstance(n, int) and n == 0:
        return a[0]
    d = e.access(st, a[0], n, ins, 'memset', write=True)
    v = a[1]
    v = v & 255 if isinstance(v, int) else norm(z3.Extract(7, 0, v))
    if d is not None:
        e.write_ranged(st, d.obj, 'F', d.off, n, v)
    return a[0]


@B('abort', '_ZSt9terminatev', '__clang_call_terminate')
def _(e, st, fr, ins, a):
    e.oblige(st, False, 'abort', 'abort/terminate is not reached', ins)
    raise PathEnd()


# ---------------------------------------------------------------- C++ runtime
@B('_Znwm', '_Znam')
def _(e, st, fr, ins, a):
    big = b_not(ult(a[0], MAXOBJ))
    if not isinstance(big, bool):
        e.assume_cond(st, b_not(big))
    o = e.new_obj(st, a[0], 'new', 'heap', ('uninit', e.fresh_uf('new')))
    return Ptr(o.id, 0)


@B('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm')
def _(e, st, fr, ins, a):
    o = check_free(e, st, a[0], ins)
    if o is not None:
        st.mem[o.id] = o.upd(alive=False)
    return None


@B('__cxa_allocate_exception')
def _(e, st, fr, ins, a):
    o = e.new_obj(st, a[0], 'exc', 'exc', ('uninit', e.fresh_uf('exc')))
    return Ptr(o.id, 0)


@B('__cxa_free_exception')
def _(e, st, fr, ins, a):
    return None


@B('__cxa_throw')
def _(e, st, fr, ins, a):
    st.caught = st.caught
    return ('__ctl__', e.throw(st, a[1], a[0], ins, None) or ('fork', [st]))


@B('__cxa_begin_catch')
def _(e, st, fr, ins, a):
    st.caught = st.caught + (st.exc,)
    return a[0]


@B('__cxa_end_catch')
def _(e, st, fr, ins, a):
    st.caught = st.caught[:-1]
    return None


@B('__cxa_rethrow')
def _(e, st, fr, ins, a):
    x = st.caught[-1]
    return ('__ctl__', e.throw(st, x[0], x[1], ins, None) or ('fork', [st]))


@B('__cxa_atexit')
def _(e, st, fr, ins, a):
    return 0


@B('__cxa_guard_acquire')
def _(e, st, fr, ins, a):
    v = e.load_val(st, a[0], ir.ity(8), ins)
    z = eq(v, 0, 8)
    if not isinstance(z, bool):
        raise Unsupported('symbolic guard')
    return 1 if z else 0


@B('__cxa_guard_release')
def _(e, st, fr, ins, a):
    e.store_val(st, a[0], ir.ity(8), 1, ins)
    return None


@B('__cxa_guard_abort')
def _(e, st, fr, ins, a):
    return None


@B('__cxa_pure_virtual')
def _(e, st, fr, ins, a):
    e.oblige(st, False, 'abort', 'no pure virtual call', ins)
    raise PathEnd()


@B('__errno_location')
def _(e, st, fr, ins, a):
    k = 'errno_obj'
    if k not in st.meta:
        o = e.new_obj(st, 4, 'errno', 'global', ('fresh', e.fresh_uf('errno')))
        st.meta[k] = o.id
    return Ptr(st.meta[k], 0)
