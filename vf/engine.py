"""Symbolic-execution based verification-condition generator over LLVM IR.

Proof mode : loops whose trip count is not concrete are cut at their header.  The state the loop may modify is
             havocked (frame inferred by a fix point), inductive invariants are the harness' abstract invariants plus
             template candidates, pruned Houdini-style until inductive; every obligation is then checked on an
             arbitrary iteration and on every exit.  No bound on iterations or sizes.
Bounded    : loops are unrolled, inputs limited to the harness' small ranges; used only to look for a concrete
             counterexample or as a labelled stand-in.
"""
import os
import time
import struct
import z3
from . import ir
from .sym import *
from .mem import *


class Restart(Exception):
    def __init__(self, key):
        self.key = key


class PathEnd(Exception):
    pass


class TooMany(Exception):
    pass


class Failed(Exception):
    """stop at first violated obligation (bounded search)"""


class Frame:
    __slots__ = ('f', 'env', 'block', 'prev', 'idx', 'call', 'allocas', 'visits', 'contract', 'byvals')

    def __init__(self, f):
        self.f = f
        self.env = {}
        self.block = f.entry
        self.prev = None
        self.idx = 0
        self.call = None
        self.allocas = []
        self.visits = {}
        self.contract = None

    def clone(self):
        g = Frame.__new__(Frame)
        g.f = self.f
        g.env = dict(self.env)
        g.block = self.block
        g.prev = self.prev
        g.idx = self.idx
        g.call = self.call
        g.allocas = list(self.allocas)
        g.visits = dict(self.visits)
        g.contract = self.contract
        return g


class State:
    __slots__ = ('frames', 'mem', 'pc', 'nd', 'lazy', 'invs', 'terms', 'watch', 'uninit_hit', 'exc', 'caught', 'quiet', 'cut',
                 'result', 'trace', 'icmps', 'mayfail', 'meta', 'skip', 'ghost')

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.nd = list(self.nd)
        s.lazy = dict(self.lazy)
        s.invs = self.invs
        s.terms = self.terms
        s.watch = self.watch
        s.uninit_hit = False
        s.exc = self.exc
        s.caught = self.caught
        s.quiet = self.quiet
        s.cut = self.cut
        s.result = None
        s.trace = self.trace
        s.icmps = self.icmps
        s.mayfail = self.mayfail
        s.meta = dict(self.meta)
        s.skip = self.skip
        s.ghost = self.ghost
        return s


def new_state():
    s = State.__new__(State)
    s.frames = []
    s.mem = {}
    s.pc = []
    s.nd = []
    s.lazy = {}
    s.invs = ()
    s.terms = ()
    s.watch = ()
    s.uninit_hit = False
    s.exc = None
    s.caught = ()
    s.quiet = 0
    s.cut = False
    s.result = None
    s.trace = ()
    s.icmps = None
    s.mayfail = False
    s.meta = {}
    s.skip = None
    s.ghost = 0
    return s


class LoopStop:
    __slots__ = ('depth', 'header', 'body', 'n0')

    def __init__(self, depth, header, body, n0):
        self.n0 = n0
        self.depth = depth
        self.header = header
        self.body = body


class Engine(Memory):
    def __init__(self, mod, mode='proof', harness_prefixes=('@H_', '@C__', '@vf_', '@G_'), small=True,
                 time_budget=None, unroll=(), max_iter=40, stop_first=False):
        self.m = mod
        self.mode = mode
        self.solver = SolverFront()
        self.cutset = set()
        self.nounroll = set()
        self.unroll = set(unroll)
        self.unroll_n = 0
        self.cur_stop = None
        self.nohoist = {}
        self.fresh_n = 0
        self.obj_n = 1
        self.gobj = {}
        self.fn_of = {}
        self.init_mem = {}
        self.obl = {}            # key -> [count, status, detail]
        self.failures = []
        self.covers = {}
        self.external = {}
        self.contracts_used = set()
        self.functions = set()
        self.max_iter = max_iter
        self.stop_first = stop_first
        self.t0 = time.time()
        if time_budget:
            self.solver.deadline = self.t0 + time_budget
        self.loc_cache = {}
        self.paths = 0
        self.houdini = []
        self.truncated = 0
        self.contracts = {n[4:]: n for n in mod.funcs if n.startswith('@C__')}
        self.check_uninit = True
        self.assume_log = set()
        self.max_states = 20000
        self.debug = False

    # ------------------------------------------------------------------ misc
    def fresh(self, name, w):
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (name, self.fresh_n), w)

    def fresh_uf(self, name):
        self.fresh_n += 1
        return '%s!%d' % (name, self.fresh_n)

    def loc(self, ins):
        if ins is None or ins.line is None:
            return (ins.fn if ins is not None else '?')
        r = self.loc_cache.get((ins.line, ins.fn))
        if r is None:
            md = self.m.meta.get(ins.line, '')
            import re
            mm = re.search(r'line: (\d+)', md)
            ln = mm.group(1) if mm else '?'
            sc = re.search(r'scope: !(\d+)', md)
            fl = None
            hop = 0
            while sc and fl is None and hop < 20:
                d = self.m.meta.get(int(sc.group(1)), '')
                fm = re.search(r'file: !(\d+)', d)
                if fm:
                    fd = self.m.meta.get(int(fm.group(1)), '')
                    nm = re.search(r'filename: "([^"]*)"', fd)
                    if nm:
                        fl = nm.group(1)
                sc = re.search(r'scope: !(\d+)', d)
                hop += 1
            fl = (fl or '?')
            for pre in (os.environ.get('VF_REPO', '/repo') + '/', '/repo/', '/verif/'):
                if fl.startswith(pre):
                    fl = fl[len(pre):]
            r = '%s:%s (%s)' % (fl, ln, ins.fn.lstrip('@'))
            self.loc_cache[(ins.line, ins.fn)] = r
        return r

    def new_obj(self, st, size, name, kind, base, **kw):
        self.obj_n += 1
        o = Obj(self.obj_n, size, name, kind, base, **kw)
        st.mem[o.id] = o
        return o

    def assume_cond(self, st, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume_cond(st, norm(x))
            return
        st.pc.append(c)

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, cond, kind, msg, ins=None):
        """cond must hold on this path; afterwards it is assumed"""
        if st.ghost:
            # ghost (specification) code: do not report, just continue
            if cond is False:
                raise PathEnd()
            return
        if st.quiet:
            if isinstance(cond, bool):
                if not cond:
                    raise PathEnd()
                return
            self.assume_cond(st, cond)
            return
        key = (kind, self.loc(ins), msg)
        rec = self.obl.setdefault(key, [0, 'ok', None])
        rec[0] += 1
        if cond is True:
            return
        nc = z3.BoolVal(True) if cond is False else z3.Not(cond)
        r = self.solver.check(st.pc, nc)
        if r == 'unsat':
            return
        if r == 'unknown':
            if rec[1] == 'ok':
                rec[1] = 'unknown'
        else:
            if rec[1] != 'fail':
                rec[1] = 'fail'
                self.record_failure(st, nc, key)
            if self.stop_first:
                raise Failed()
        if cond is False:
            raise PathEnd()
        self.assume_cond(st, cond)
        if self.solver.check(st.pc, z3.BoolVal(True)) == 'unsat':
            raise PathEnd()

    def record_failure(self, st, nc, key):
        res, model = self.solver.check(st.pc, nc, want_model=True)
        vals = []
        if model is not None:
            for ent in st.nd:
                name, w, term = ent
                if w == 'bytes':
                    oid, size, uf = term
                    sz = size if isinstance(size, int) else model.eval(size, model_completion=True).as_long()
                    if sz > 65536:
                        vals.append((name, 'bytes', None))
                        continue
                    f = z3.Function(uf, z3.BitVecSort(64), z3.BitVecSort(8))
                    bs = bytes(model.eval(f(z3.BitVecVal(i, 64)), model_completion=True).as_long() for i in range(sz))
                    vals.append((name, 'bytes', bs.hex()))
                else:
                    v = term if isinstance(term, int) else model.eval(term, model_completion=True).as_long()
                    vals.append((name, w, v))
        stack = [fr.f.name.lstrip('@') for fr in st.frames]
        self.failures.append({'obligation': '%s | %s | %s' % key, 'kind': key[0], 'where': key[1], 'msg': key[2],
                              'values': vals, 'after_cut': st.cut, 'stack': stack, 'status': 'fail' if model is not None else res})

    # ------------------------------------------------------------------ constants & globals
    def global_ptr(self, st, name):
        al = self.m.aliases.get(name)
        if al is not None:
            return self.const(st, al, ir.PTR)
        oid = self.gobj.get(name)
        if oid is None:
            self.obj_n += 1
            oid = self.obj_n
            self.gobj[name] = oid
            if name in self.m.globals:
                t, init, const = self.m.globals[name]
                size = self.m.sizeof(t)
                o = Obj(oid, size, name, 'global', ('zero',), writable=not const)
                self.init_mem[oid] = o
                if init is None:
                    o.base = ('fresh', 'extern_' + name)
                else:
                    self.init_global(o, 0, t, init)
            else:
                o = Obj(oid, 1, name, 'func', ('zero',), writable=False, fn=name)
                self.init_mem[oid] = o
                self.fn_of[oid] = name
        return Ptr(oid, 0)

    def init_global(self, o, off, t, v):
        k = v[0]
        rt = self.m.resolve(t)
        if k in ('zero', 'undef'):
            return
        if k == 'bytes':
            if off == 0 and o.size == len(v[2]):
                o.base = ('bytes', v[2])
            else:
                for i, c in enumerate(v[2]):
                    if c:
                        o.node = Node('S', off + i, 1, c, o.node)
            return
        if k == 'agg':
            if rt.k == 'array':
                es = self.m.sizeof(rt.el)
                for i, (et, ev) in enumerate(v[2]):
                    self.init_global(o, off + i * es, et, ev)
            else:
                offs = self.m.layout(rt)[0]
                for i, (et, ev) in enumerate(v[2]):
                    self.init_global(o, off + offs[i], et, ev)
            return
        val = self.const(None, v, t)
        n = self.m.sizeof(rt)
        if isinstance(val, float):
            val = float_bits(val, rt)
        if isinstance(val, bool):
            val = int(val)
        o.node = Node('S', off, n, val, o.node)

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.init_mem.get(oid)
            if o is not None:
                st.mem[oid] = o
        return o

    def const(self, st, v, ty):
        k = v[0]
        if k == 'c':
            rt = self.m.resolve(v[1])
            if rt.k == 'int' and rt.n == 1:
                return bool(v[2])
            return v[2]
        if k == 'g':
            return self.global_ptr(st, v[1])
        if k == 'fp':
            return v[2]
        if k == 'undef':
            rt = self.m.resolve(v[1])
            return self.undef(rt)
        if k == 'zero':
            return self.zero(self.m.resolve(v[1]))
        if k == 'gep':
            base = self.const(st, v[2], ir.PTR)
            return self.gep(st, v[1], base, [(t, self.const(st, x, t)) for t, x in v[3]])
        if k == 'cast':
            x = self.const(st, v[3], v[2])
            if v[1] == 'ptrtoint':
                return ptr_bits(x)
            if v[1] in ('inttoptr', 'bitcast'):
                return x
            raise Unsupported('const cast')
        if k == 'bin':
            a = self.const(st, v[3], v[2])
            b = self.const(st, v[4], v[2])
            return self.binop(st, v[1], a, b, self.m.resolve(v[2]).n, {}, None)
        if k == 'agg':
            return tuple(self.const(st, x, t) for t, x in v[2])
        if k == 'bytes':
            return tuple(v[2])
        raise Unsupported('const ' + k)

    def undef(self, rt):
        if rt.k == 'int':
            if rt.n == 1:
                self.fresh_n += 1
                return z3.Bool('undef!%d' % self.fresh_n)
            return self.fresh('undef', rt.n)
        if rt.k == 'ptr':
            return self.fresh('undefp', 64)
        if rt.k == 'struct':
            return tuple(self.undef(self.m.resolve(t)) for t in rt.fields)
        if rt.k == 'array':
            return tuple(self.undef(self.m.resolve(rt.el)) for _ in range(rt.n))
        if rt.k in ('double', 'float'):
            return 0.0
        raise Unsupported('undef %r' % rt)

    def zero(self, rt):
        if rt.k == 'int':
            return False if rt.n == 1 else 0
        if rt.k == 'ptr':
            return 0
        if rt.k in ('double', 'float'):
            return 0.0
        if rt.k == 'struct':
            return tuple(self.zero(self.m.resolve(t)) for t in rt.fields)
        if rt.k == 'array':
            return tuple(self.zero(self.m.resolve(rt.el)) for _ in range(rt.n))
        raise Unsupported('zero')

    def val(self, st, v, ty=None):
        k = v[0]
        if k == 'l':
            return st.frames[-1].env[v[1]]
        if k == 'meta':
            return None
        return self.const(st, v, ty)

    # ------------------------------------------------------------------ gep
    def const_int(self, v):
        if isinstance(v, tuple) and v[0] == 'c' and isinstance(v[2], int):
            return sgn(v[2], 64) if v[2] >= 0 else v[2]
        return None

    def gep(self, st, src, base, idx):
        off = 0
        t = src
        first = True
        for (it, iv) in idx:
            w = self.m.resolve(it).n
            if isinstance(iv, int):
                i64 = sgn(iv, w) & mask(64)
            else:
                i64 = norm(z3.SignExt(64 - w, iv)) if w < 64 else iv
            if first:
                sz = self.m.sizeof(t)
                off = add(off, mul(i64, sz))
                first = False
                continue
            rt = self.m.resolve(t)
            if rt.k == 'struct':
                offs = self.m.layout(rt)[0]
                off = add(off, offs[i64])
                t = rt.fields[i64]
            else:
                t = rt.el
                off = add(off, mul(i64, self.m.sizeof(t)))
        if isinstance(base, Ptr):
            return Ptr(base.obj, add(base.off, off))
        return add(base, off)

    # ------------------------------------------------------------------ pointer resolution
    def resolve_ptr(self, st, p):
        """-> Ptr or None (null / invalid)"""
        if isinstance(p, Ptr):
            return p
        if isinstance(p, int):
            oid = p >> OBJ_SHIFT
            if oid and self.obj(st, oid) is not None:
                return Ptr(oid, p - (oid << OBJ_SHIFT))
            return None
        # symbolic raw
        res, m = self.solver.check(st.pc, True, want_model=True)
        if m is None:
            raise PathEnd()
        oid = m.eval(z3.LShR(p, OBJ_SHIFT), model_completion=True).as_long()
        c = norm(z3.LShR(p, OBJ_SHIFT) == oid)
        if not self.must(st, c):
            if z3.is_app_of(p, z3.Z3_OP_ITE):
                cc = p.children()[0]
                if self.may(st, cc) and self.may(st, z3.Not(cc)):
                    raise Fork([cc, b_not(cc)])
            o = self.obj(st, oid)
            if o is None:
                return ('wild', p)
            raise Fork([c, b_not(c)])
        if self.obj(st, oid) is None:
            return None
        return Ptr(oid, norm(p - z3.BitVecVal(oid << OBJ_SHIFT, 64)))

    def access(self, st, p, n, ins, what, write=False):
        """check that n bytes at p are accessible; returns Ptr"""
        r = self.resolve_ptr(st, p)
        if r is None or isinstance(r, tuple):
            zero = (n == 0) if isinstance(n, int) else eq(n, 0)
            if r is None and not (isinstance(p, int) and p == 0):
                self.oblige(st, zero, 'mem', 'valid pointer for ' + what, ins)
            elif r is None:
                self.oblige(st, zero, 'mem', 'no null dereference in ' + what, ins)
            else:
                self.oblige(st, False, 'mem', 'valid pointer for ' + what, ins)
            return None
        o = self.obj(st, r.obj)
        if o.kind == 'func':
            self.oblige(st, False, 'mem', 'valid pointer for ' + what, ins)
        if o.alive is False:
            self.oblige(st, False, 'mem', 'no use after free/scope in ' + what, ins)
        if write and not o.writable:
            self.oblige(st, False, 'mem', 'no write to constant memory in ' + what, ins)
        if isinstance(n, int) and isinstance(r.off, int) and isinstance(o.size, int):
            self.oblige(st, r.off + n <= o.size, 'mem', 'in bounds: ' + what, ins)
        else:
            c = b_and(ule(n, o.size), ule(r.off, sub(o.size, n)))
            self.oblige(st, c, 'mem', 'in bounds: ' + what, ins)
        g = st.meta.get('guards')
        if g is not None and r.obj in g and not st.ghost:
            self.check_guard(st, g[r.obj], r, n, ins)
        return r

    def check_guard(self, st, gs, r, n, ins):
        fn = st.frames[-1].f
        if fn.name.startswith(('@H_', '@G_', '@C__', '@B_')) or 'harness/' in self.m.srcfile.get(fn.subprogram, ''):
            return
        for off, gn, fl in gs:
            if isinstance(off, int) and isinstance(r.off, int) and isinstance(n, int) and isinstance(gn, int):
                if r.off + n <= off or off + gn <= r.off:
                    continue
            o = self.obj(st, fl.obj)
            v = self.read(st, o.node, o.base, fl.off, 4)
            held = b_not(eq(v, 0, 32))
            if held is not True:
                apart = b_or(ule(add(r.off, n), off), ule(add(off, gn), r.off))
                held = b_or(held, apart)
            self.oblige(st, held, 'race', 'shared state is touched only while its lock is held', ins)

    def load_val(self, st, p, ty, ins):
        rt = self.m.resolve(ty)
        if rt.k in ('struct', 'array'):
            out = []
            if rt.k == 'struct':
                offs = self.m.layout(rt)[0]
                fs = list(zip(rt.fields, offs))
            else:
                es = self.m.sizeof(rt.el)
                fs = [(rt.el, i * es) for i in range(rt.n)]
            for ft, fo in fs:
                q = Ptr(p.obj, add(p.off, fo)) if isinstance(p, Ptr) else add(p, fo)
                out.append(self.load_val(st, q, ft, ins))
            return tuple(out)
        n = self.m.sizeof(rt)
        r = self.access(st, p, n, ins, 'load')
        sh = st.meta.get('shared')
        if sh is not None and r.obj in sh and not st.ghost:
            self.shared_read(st, sh[r.obj], r, n)
        o = st.mem[r.obj]
        st.uninit_hit = False
        v = self.read(st, o.node, o.base, r.off, n)
        if st.uninit_hit and self.check_uninit and not st.ghost:
            self.oblige(st, False, 'uninit', 'no read of uninitialised memory', ins)
        return self.from_mem(v, rt, n)

    def from_mem(self, v, rt, n):
        if rt.k == 'int':
            if rt.n == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                return norm(z3.Extract(0, 0, v) == 1)
            if isinstance(v, Ptr):
                v = ptr_bits(v)
            if rt.n < 8 * n:
                if isinstance(v, int):
                    return v & mask(rt.n)
                return norm(z3.Extract(rt.n - 1, 0, v))
            if z3.is_expr(v) and z3.is_fp(v):
                return norm(z3.fpToIEEEBV(v))
            return v
        if rt.k == 'ptr':
            return v
        if rt.k == 'double':
            if isinstance(v, int):
                return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
            if isinstance(v, Ptr):
                raise Unsupported('ptr as double')
            if z3.is_fp(v):
                return v
            return z3.fpBVToFP(v, z3.Float64())
        if rt.k == 'float':
            if isinstance(v, int):
                return struct.unpack('<f', v.to_bytes(4, 'little'))[0]
            if z3.is_fp(v):
                return v
            return z3.fpBVToFP(v, z3.Float32())
        raise Unsupported('load %r' % rt)

    def store_val(self, st, p, ty, v, ins, old=None):
        rt = self.m.resolve(ty)
        if rt.k in ('struct', 'array'):
            if rt.k == 'struct':
                offs = self.m.layout(rt)[0]
                fs = list(zip(rt.fields, offs))
            else:
                es = self.m.sizeof(rt.el)
                fs = [(rt.el, i * es) for i in range(rt.n)]
            for (ft, fo), x in zip(fs, v):
                q = Ptr(p.obj, add(p.off, fo)) if isinstance(p, Ptr) else add(p, fo)
                self.store_val(st, q, ft, x, ins)
            return
        n = self.m.sizeof(rt)
        r = self.access(st, p, n, ins, 'store', write=True)
        sh = st.meta.get('shared')
        if sh is not None and r.obj in sh and not st.ghost:
            self.shared_write(st, sh[r.obj], r, n, v, ins, old)
        self.write(st, r.obj, r.off, n, self.to_mem(v, rt, n))

    # ---- cells shared with other threads (vf_shared): any value may be found in them, they change in single atomic steps
    def in_harness(self, st):
        fn = st.frames[-1].f
        return fn.name.startswith(('@H_', '@G_', '@C__', '@B_')) or 'harness/' in self.m.srcfile.get(fn.subprogram, '')

    def shared_cell(self, st, cells, r, n):
        for off, gn, lg, fl in cells:
            if not (isinstance(r.off, int) and isinstance(n, int)):
                raise Unsupported('symbolic access to shared cell')
            if r.off + n <= off or off + gn <= r.off:
                continue
            held = False
            if fl is not None:
                o = self.obj(st, fl.obj)
                held = self.must(st, b_not(eq(self.read(st, o.node, o.base, fl.off, 4), 0, 32)))
            return (off, gn, lg, held)
        return None

    def shared_read(self, st, cells, r, n):
        if self.in_harness(st):
            return
        c = self.shared_cell(st, cells, r, n)
        if c is not None and not c[3]:
            self.write(st, r.obj, c[0], c[1], self.fresh('others', 8 * c[1]))

    def shared_write(self, st, cells, r, n, v, ins, old):
        if self.in_harness(st):
            return
        c = self.shared_cell(st, cells, r, n)
        if c is None:
            return
        off, gn, lg, held = c
        if old is None and not held:
            self.oblige(st, False, 'race', 'a shared cell changes only in an atomic step', ins)
            raise PathEnd()
        if old is None:
            o = st.mem[r.obj]
            old = self.read(st, o.node, o.base, off, gn)
        lo = self.obj(st, lg.obj)
        k = self.read(st, lo.node, lo.base, lg.off, 8)
        self.write(st, lg.obj, lg.off, 8, add(k, 1))
        z = lambda x: x if isinstance(x, int) or x.size() == 64 else norm(z3.ZeroExt(64 - x.size(), x))
        self.write(st, lg.obj, add(lg.off, 8), 8, z(old))
        self.write(st, lg.obj, add(lg.off, 16), 8, z(v))

    def to_mem(self, v, rt, n):
        if rt.k == 'int':
            if rt.n == 1:
                if isinstance(v, bool):
                    return int(v)
                return norm(z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
            if rt.n < 8 * n and not isinstance(v, int):
                return norm(z3.ZeroExt(8 * n - rt.n, v))
            return v
        if rt.k in ('double', 'float'):
            if isinstance(v, float):
                return float_bits(v, rt)
            return v
        return v

    # ------------------------------------------------------------------ arithmetic
    def binop(self, st, op, a, b, w, fl, ins):
        if op in ('and', 'or', 'xor') and w > 1 and not (isinstance(a, int) and isinstance(b, int)):
            p, q = as_bit(a), as_bit(b)
            if p is not None and q is not None:
                c = b_and(p, q) if op == 'and' else b_or(p, q) if op == 'or' else norm(z3.Xor(zb(p), zb(q)))
                return int(c) if isinstance(c, bool) else norm(z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
        if w == 1:
            A, B = to_bool(a), to_bool(b)
            if op in ('and', 'mul'):
                return b_and(A, B)
            if op == 'or':
                return b_or(A, B)
            if op in ('xor', 'add', 'sub'):
                if isinstance(A, bool) and isinstance(B, bool):
                    return A != B
                return norm(z3.Xor(A if not isinstance(A, bool) else z3.BoolVal(A), B if not isinstance(B, bool) else z3.BoolVal(B)))
            raise Unsupported('i1 ' + op)
        if isinstance(a, Ptr):
            a = ptr_bits(a)
        if isinstance(b, Ptr):
            b = ptr_bits(b)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige(st, b_not(eq(b, 0, w)), 'div', 'divisor is not zero', ins)
        if isinstance(a, int) and isinstance(b, int):
            M = mask(w)
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & M if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sgn(a, w) >> min(b, w - 1)) & M
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == 'sdiv':
                return q & M
            return (sa - q * sb) & M
        A, B = bv(a, w), bv(b, w)
        if op == 'add':
            r = A + B
        elif op == 'sub':
            r = A - B
        elif op == 'mul':
            r = A * B
        elif op == 'and':
            r = A & B
        elif op == 'or':
            r = A | B
        elif op == 'xor':
            r = A ^ B
        elif op == 'shl':
            r = A << B
        elif op == 'lshr':
            r = z3.LShR(A, B)
        elif op == 'ashr':
            r = A >> B
        elif op == 'udiv':
            r = z3.UDiv(A, B)
        elif op == 'urem':
            r = z3.URem(A, B)
        elif op == 'sdiv':
            r = A / B
        elif op == 'srem':
            r = z3.SRem(A, B)
        else:
            raise Unsupported(op)
        return norm(r)

    def fbin(self, op, a, b, ty):
        if isinstance(a, float) and isinstance(b, float):
            try:
                if op == 'fadd':
                    return a + b
                if op == 'fsub':
                    return a - b
                if op == 'fmul':
                    return a * b
                if op == 'fdiv':
                    return a / b
            except ZeroDivisionError:
                pass
        s = z3.Float64() if ty.k == 'double' else z3.Float32()
        A = z3.FPVal(a, s) if isinstance(a, float) else a
        B = z3.FPVal(b, s) if isinstance(b, float) else b
        rm = z3.RNE()
        return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, A, B)

    def icmp(self, st, pred, a, b, rt):
        w = rt.n if rt.k == 'int' else 64
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                a, b = a.off, b.off
                # offsets are < 2^43; compare as signed 64 is the same
            elif pred in ('eq', 'ne'):
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    return pred == 'ne'
                pa, other = (a, b) if isinstance(a, Ptr) else (b, a)
                if isinstance(other, int) and other == 0:
                    return pred == 'ne'
                a, b = ptr_bits(a), ptr_bits(b)
            else:
                a, b = ptr_bits(a), ptr_bits(b)
        if w == 1:
            a, b = to_bool(a), to_bool(b)
            A = a if not isinstance(a, bool) else z3.BoolVal(a)
            B = b if not isinstance(b, bool) else z3.BoolVal(b)
            if pred == 'eq':
                return norm(A == B)
            if pred == 'ne':
                return norm(A != B)
            a, b, w = int(a) if isinstance(a, bool) else bv(a, 8), int(b) if isinstance(b, bool) else bv(b, 8), 8
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            p = pred[-2:]
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
        A, B = bv(a, w), bv(b, w)
        if pred == 'eq':
            return norm(A == B)
        if pred == 'ne':
            return norm(A != B)
        f = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}.get(pred)
        if f:
            return norm(f(A, B))
        return norm({'slt': lambda: A < B, 'sle': lambda: A <= B, 'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]())

    # ------------------------------------------------------------------ exploration
    def explore(self, init, stop=None):
        """run from init until the stop condition / end of the bottom frame; returns list of (kind, state)"""
        out = []
        work = [init]
        while work:
            st = work.pop()
            self.paths += 1
            if self.paths > self.max_states:
                raise TooMany('more than %d path segments' % self.max_states)
            try:
                while True:
                    r = self.step(st, stop)
                    if r is None:
                        continue
                    k = r[0]
                    if k == 'fork':
                        work.extend(r[1])
                        break
                    if k in ('back', 'exit', 'done'):
                        out.append((k, st))
                        break
                    if k == 'many':      # list of (kind,state) to resume
                        work.extend(r[1])
                        break
                    raise Exception(k)
            except PathEnd:
                pass
        return out

    def in_loops(self, fr):
        ls = ir.find_loops(fr.f)
        return [h for h, body in ls.items() if fr.block in body]

    def note_fork(self, st, ins, targets=None):
        """a symbolic two-way decision inside loops: decide whether a loop must be cut (proof mode)"""
        if self.mode != 'proof':
            return
        for depth, fr in enumerate(st.frames):
            ls = ir.find_loops(fr.f)
            if not ls:
                continue
            top = fr is st.frames[-1]
            for h, body in ls.items():
                if fr.block not in body:
                    continue
                key = (fr.f.name, h)
                if key in self.cutset or fr.f.name.lstrip('@') in self.unroll:
                    continue
                exits = top and targets is not None and any(t not in body for t in targets) and any(t in body for t in targets)
                n = fr.visits.get(h, 0)
                if (exits and n >= self.unroll_n) or n >= max(3, self.unroll_n):
                    raise Restart(key)

    def step(self, st, stop):
        if not st.frames:
            return ('done',)
        if stop is not None and len(st.frames) < stop.depth:
            return ('exit',)
        fr = st.frames[-1]
        self.cur_stop = stop
        sk = st.skip
        ins = fr.f.blocks[fr.block][fr.idx] if fr.idx < len(fr.f.blocks[fr.block]) else None
        try:
            if sk is not None:
                st.skip = None
                return self.transition(st, fr, sk[0], stop)
            op = ins.op
            h = getattr(self, 'i_' + op, None)
            if h is None:
                raise Unsupported('instruction ' + op)
            return h(st, fr, ins, stop)
        except _b.ForkMeta as fm:
            self.note_fork(st, ins)
            outs = []
            for v in (1, 0):
                s2 = st.clone()
                s2.skip = sk
                s2.meta[fm.k] = v
                outs.append(s2)
            return ('fork', outs)
        except LazyFork as lf:
            self.note_fork(st, ins)
            lid, idx, slot, res = lf.a
            outs = []
            for r in res:
                s2 = st.clone()
                s2.skip = sk
                self.lazy_apply(s2, lid, idx, slot, r)
                outs.append(s2)
            return ('fork', outs)
        except Fork as fk:
            self.note_fork(st, ins)
            self.try_hoist(st, stop, fk.conds)
            outs = []
            for c in fk.conds:
                if isinstance(c, bool):
                    if not c:
                        continue
                    s2 = st.clone()
                    s2.skip = sk
                    outs.append(s2)
                    continue
                if self.may(st, c):
                    s2 = st.clone()
                    s2.skip = sk
                    try:
                        self.assume_cond(s2, c)
                    except PathEnd:
                        continue
                    outs.append(s2)
            return ('fork', outs)

    def try_hoist(self, st, stop, conds):
        if stop is None or st.ghost or self.mode != 'proof':
            return
        for c in conds:
            if not isinstance(c, bool) and (c.get_id() in self.nohoist or not self.is_old(c, stop.n0)):
                return
        raise Hoist(conds=conds)

    def is_old(self, c, n0):
        if not z3.is_expr(c):
            return True
        for n in vars_of(c):
            i = n.rfind('!')
            if i >= 0 and n[i + 1:].isdigit() and int(n[i + 1:]) > n0:
                return False
        return True

    def transition(self, st, fr, target, stop):
        """move to block target; handles stop conditions, loop cutting and phi nodes"""
        src = fr.block
        if stop is not None and len(st.frames) == stop.depth:
            if target == stop.header and src in stop.body:
                fr.prev = src
                fr.block = target
                fr.idx = 0
                return ('back',)
            if target not in stop.body:
                st.skip = (target,)
                return ('exit',)
        return self.enter_block(st, fr, target, src)

    def enter_block(self, st, fr, target, src):
        loops = ir.find_loops(fr.f)
        if target in loops:
            body = loops[target]
            if src in body:
                fr.visits[target] = fr.visits.get(target, 0) + 1
                if self.mode == 'bounded' and fr.visits[target] > max(self.max_iter, self.unroll_n):
                    self.truncated += 1
                    raise PathEnd()
                if fr.visits[target] > 5000:
                    raise Unsupported('more than 5000 concrete iterations in %s' % fr.f.name)
            else:
                fr.visits[target] = 0
                if self.mode == 'proof' and (fr.f.name, target) in self.cutset:
                    outs = self.cut_loop(st, fr, target, src)
                    return ('many', outs)
        self.do_phis(st, fr, target, src)
        return None

    def do_phis(self, st, fr, target, src):
        blk = fr.f.blocks[target]
        vals = []
        i = 0
        for ins in blk:
            if ins.op != 'phi':
                break
            for v, b in ins.x:
                if b == src:
                    vals.append((ins.dst, self.val(st, v, ins.ty)))
                    break
            else:
                raise Unsupported('phi without incoming edge')
            i += 1
        for d, v in vals:
            fr.env[d] = v
        fr.prev = src
        fr.block = target
        fr.idx = i

    def resume_exit(self, st):
        """continue a state that stopped with 'exit' at a loop boundary"""
        pass

    # ------------------------------------------------------------------ instructions
    def i_nop(self, st, fr, ins, stop):
        fr.idx += 1

    def i_alloca(self, st, fr, ins, stop):
        n = self.m.sizeof(ins.ty)
        if ins.x is not None:
            c = self.val(st, ins.x[1], ins.x[0])
            n = mul(n, c if not isinstance(c, int) else c)
        o = self.new_obj(st, n, ins.dst, 'stack', ('uninit', self.fresh_uf('stk')))
        fr.allocas.append(o.id)
        fr.env[ins.dst] = Ptr(o.id, 0)
        fr.idx += 1

    def i_load(self, st, fr, ins, stop):
        p = self.val(st, ins.a[0], ir.PTR)
        fr.env[ins.dst] = self.load_val(st, p, ins.ty, ins)
        fr.idx += 1

    def i_store(self, st, fr, ins, stop):
        v = self.val(st, ins.a[0], ins.ty)
        p = self.val(st, ins.a[1], ir.PTR)
        self.store_val(st, p, ins.ty, v, ins)
        fr.idx += 1

    def i_getelementptr(self, st, fr, ins, stop):
        base = self.val(st, ins.a[0], ir.PTR)
        fr.env[ins.dst] = self.gep(st, ins.ty, base, [(t, self.val(st, v, t)) for t, v in ins.x])
        fr.idx += 1

    def i_icmp(self, st, fr, ins, stop):
        rt = self.m.resolve(ins.ty)
        a = self.val(st, ins.a[0], ins.ty)
        b = self.val(st, ins.a[1], ins.ty)
        if st.icmps is not None:
            w = rt.n if rt.k == 'int' else 64
            st.icmps.append((len(st.frames), fr.block, a, b, w))
        fr.env[ins.dst] = self.icmp(st, ins.x, a, b, rt)
        fr.idx += 1

    def i_fcmp(self, st, fr, ins, stop):
        a = self.val(st, ins.a[0], ins.ty)
        b = self.val(st, ins.a[1], ins.ty)
        pred = ins.x
        if isinstance(a, float) and isinstance(b, float):
            import math
            un = math.isnan(a) or math.isnan(b)
            p = pred[1:]
            r = {'eq': a == b, 'ne': a != b and not un, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'rd': not un, 'no': un}.get(p, False)
            if pred[0] == 'u' and pred != 'uno':
                r = r or un
            fr.env[ins.dst] = r
        else:
            s = z3.Float64() if ins.ty.k == 'double' else z3.Float32()
            A = z3.FPVal(a, s) if isinstance(a, float) else a
            B = z3.FPVal(b, s) if isinstance(b, float) else b
            un = z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(B))
            p = pred[1:]
            if pred == 'uno':
                r = un
            elif pred == 'ord':
                r = z3.Not(un)
            else:
                r = {'eq': z3.fpEQ, 'ne': lambda x, y: z3.And(z3.Not(z3.fpEQ(x, y)), z3.Not(un)), 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[p](A, B)
                if pred[0] == 'u':
                    r = z3.Or(r, un)
            fr.env[ins.dst] = norm(r)
        fr.idx += 1

    def i_select(self, st, fr, ins, stop):
        c = to_bool(self.val(st, ins.a[0], ir.ity(1)))
        a = self.val(st, ins.a[1], ins.ty)
        b = self.val(st, ins.a[2], ins.ty)
        rt = self.m.resolve(ins.ty)
        if isinstance(c, bool):
            fr.env[ins.dst] = a if c else b
        elif rt.k == 'int':
            if rt.n == 1:
                fr.env[ins.dst] = b_or(b_and(c, to_bool(a)), b_and(b_not(c), to_bool(b)))
            else:
                fr.env[ins.dst] = ite(c, a, b, rt.n)
        else:
            t, f = self.may(st, c), self.may(st, b_not(c))
            if t and f:
                raise Fork([c, b_not(c)])
            fr.env[ins.dst] = a if t else b
        fr.idx += 1

    def i_freeze(self, st, fr, ins, stop):
        fr.env[ins.dst] = self.val(st, ins.a[0], ins.ty)
        fr.idx += 1

    def i_fneg(self, st, fr, ins, stop):
        a = self.val(st, ins.a[0], ins.ty)
        fr.env[ins.dst] = -a if isinstance(a, float) else z3.fpNeg(a)
        fr.idx += 1

    def i_jmp(self, st, fr, ins, stop):
        return self.transition(st, fr, ins.x, stop)

    def i_br(self, st, fr, ins, stop):
        c = to_bool(self.val(st, ins.a[0], ir.ity(1)))
        a, b = ins.x
        if isinstance(c, bool):
            return self.transition(st, fr, a if c else b, stop)
        if a == b:
            return self.transition(st, fr, a, stop)
        t = self.may(st, c)
        f = self.may(st, z3.Not(c))
        if t and not f:
            return self.transition(st, fr, a, stop)
        if f and not t:
            return self.transition(st, fr, b, stop)
        if not t and not f:
            raise PathEnd()
        self.note_fork(st, ins, (a, b))
        self.try_hoist(st, stop, [c, b_not(c)])
        s1 = st.clone()
        self.assume_cond(s1, c)
        s1.frames[-1].env['%br_taken'] = True
        s2 = st.clone()
        self.assume_cond(s2, b_not(c))
        # re-execute: condition is now decided for each
        s1.frames[-1].env[ins.a[0][1]] = True
        s2.frames[-1].env[ins.a[0][1]] = False
        return ('fork', [s2, s1])

    def i_switch(self, st, fr, ins, stop):
        v = self.val(st, ins.a[0], ins.ty)
        d, cases = ins.x
        if isinstance(v, int):
            for c, b in cases:
                if c == v:
                    return self.transition(st, fr, b, stop)
            return self.transition(st, fr, d, stop)
        w = self.m.resolve(ins.ty).n
        conds = []
        rest = []
        for c, b in cases:
            e = eq(v, c, w)
            conds.append(e)
            rest.append(b_not(e))
        rc = b_and(*rest)
        feas = [(c, b) for (c, (cv, b)) in zip(conds, cases) if self.may(st, c)]
        if self.may(st, rc):
            feas.append((rc, d))
        if not feas:
            raise PathEnd()
        if len(feas) == 1:
            return self.transition(st, fr, feas[0][1], stop)
        self.note_fork(st, ins, [b for _, b in feas])
        raise_f = [c for c, _ in feas]
        outs = []
        for c in raise_f:
            s = st.clone()
            try:
                self.assume_cond(s, c)
            except PathEnd:
                continue
            outs.append(s)
        return ('fork', outs)

    def i_unreachable(self, st, fr, ins, stop):
        self.oblige(st, False, 'unreach', 'unreachable code is not reached', ins)
        raise PathEnd()

    def i_ret(self, st, fr, ins, stop):
        v = self.val(st, ins.a[0], ins.ty) if ins.a else None
        return self.do_return(st, v, stop)

    def do_return(self, st, v, stop):
        fr = st.frames.pop()
        for oid in fr.allocas:
            o = st.mem.get(oid)
            if o is not None:
                st.mem[oid] = o.upd(alive=False)
        if not st.frames:
            st.result = v
            return ('done',)
        cf = st.frames[-1]
        call = fr.call
        if call is None:
            st.result = v
            return ('done',)
        if call == 'cont':
            return None
        if call.dst is not None:
            cf.env[call.dst] = v
        if call.op == 'invoke':
            return self.transition(st, cf, call.x['normal'], stop)
        cf.idx += 1
        return None

    def i_extractvalue(self, st, fr, ins, stop):
        v = self.val(st, ins.a[0], ins.ty)
        for i in ins.x:
            v = v[i]
        fr.env[ins.dst] = v
        fr.idx += 1

    def i_insertvalue(self, st, fr, ins, stop):
        v = self.val(st, ins.a[0], ins.ty)
        x = self.val(st, ins.a[1], ins.x[0])

        def put(agg, path):
            if not path:
                return x
            l = list(agg)
            l[path[0]] = put(l[path[0]], path[1:])
            return tuple(l)
        fr.env[ins.dst] = put(v, ins.x[1])
        fr.idx += 1

    def i_atomicrmw(self, st, fr, ins, stop):
        p = self.val(st, ins.a[0], ir.PTR)
        v = self.val(st, ins.a[1], ins.ty)
        w = self.m.resolve(ins.ty).n
        old = self.load_val(st, p, ins.ty, ins)
        o = ins.x
        if o == 'xchg':
            nv = v
        else:
            nv = self.binop(st, {'add': 'add', 'sub': 'sub', 'and': 'and', 'or': 'or', 'xor': 'xor'}[o], old, v, w, {}, ins)
        self.store_val(st, p, ins.ty, nv, ins, old)
        fr.env[ins.dst] = old
        fr.idx += 1

    def i_cmpxchg(self, st, fr, ins, stop):
        p = self.val(st, ins.a[0], ir.PTR)
        c = self.val(st, ins.a[1], ins.ty)
        v = self.val(st, ins.a[2], ins.ty)
        rt = self.m.resolve(ins.ty)
        old = self.load_val(st, p, ins.ty, ins)
        e = self.icmp(st, 'eq', old, c, rt)
        if not isinstance(e, bool):
            t, f = self.may(st, e), self.may(st, b_not(e))
            if t and f:
                raise Fork([e, b_not(e)])
            e = t
        if e:
            self.store_val(st, p, ins.ty, v, ins, old)
        fr.env[ins.dst] = (old, e)
        fr.idx += 1

    def cast(self, st, op, v, ft, tt):
        f = self.m.resolve(ft)
        t = self.m.resolve(tt)
        if op == 'bitcast':
            if f.k == t.k:
                return v
            if f.k in ('double', 'float') and t.k == 'int':
                return float_bits(v, f) if isinstance(v, float) else norm(z3.fpToIEEEBV(v))
            if t.k in ('double', 'float'):
                return self.from_mem(v, t, self.m.sizeof(t))
            return v
        if op == 'ptrtoint':
            b = ptr_bits(v)
            if t.n < 64:
                return b & mask(t.n) if isinstance(b, int) else norm(z3.Extract(t.n - 1, 0, b))
            # keep the tag: pointers round-trip through uintptr_t
            return b
        if op == 'inttoptr':
            if f.n < 64:
                return v if isinstance(v, int) else norm(z3.ZeroExt(64 - f.n, v))
            return v
        if op == 'trunc':
            if isinstance(v, Ptr):
                v = ptr_bits(v)
            if t.n == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                return norm(z3.Extract(0, 0, v) == 1)
            if isinstance(v, int):
                return v & mask(t.n)
            return norm(z3.Extract(t.n - 1, 0, v))
        if op == 'zext':
            if f.n == 1:
                if isinstance(v, bool):
                    return int(v)
                return norm(z3.If(to_bool(v), z3.BitVecVal(1, t.n), z3.BitVecVal(0, t.n)))
            if isinstance(v, int):
                return v
            return norm(z3.ZeroExt(t.n - f.n, v))
        if op == 'sext':
            if f.n == 1:
                if isinstance(v, bool):
                    return mask(t.n) if v else 0
                return norm(z3.If(to_bool(v), z3.BitVecVal(mask(t.n), t.n), z3.BitVecVal(0, t.n)))
            if isinstance(v, int):
                return sgn(v, f.n) & mask(t.n)
            return norm(z3.SignExt(t.n - f.n, v))
        if op in ('uitofp', 'sitofp'):
            if isinstance(v, int):
                return float(sgn(v, f.n) if op == 'sitofp' else v)
            s = z3.Float64() if t.k == 'double' else z3.Float32()
            return (z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP)(z3.RNE(), v, s)
        if op in ('fptoui', 'fptosi'):
            if isinstance(v, float):
                return int(v) & mask(t.n)
            return norm((z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(z3.RTZ(), v, z3.BitVecSort(t.n)))
        if op in ('fpext', 'fptrunc'):
            if isinstance(v, float):
                if op == 'fptrunc':
                    return struct.unpack('<f', struct.pack('<f', v))[0]
                return v
            s = z3.Float64() if t.k == 'double' else z3.Float32()
            return z3.fpFPToFP(z3.RNE(), v, s)
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------------ calls
    def i_call(self, st, fr, ins, stop):
        fv = self.val(st, ins.x['fn'], ir.PTR)
        args = [(t, self.val(st, v, t), at) for t, v, at in ins.a]
        r = self.resolve_ptr(st, fv)
        name = None
        if isinstance(r, Ptr):
            name = self.fn_of.get(r.obj)
            if isinstance(r.off, int) and r.off != 0:
                name = None
        if name is None:
            self.oblige(st, False, 'mem', 'call through a valid function pointer', ins)
            raise PathEnd()
        return self.do_call(st, fr, ins, name, args, stop)

    i_invoke = i_call

    def do_call(self, st, fr, ins, name, args, stop):
        base = name[1:].strip('"')
        cn = self.contracts.get(base)
        if cn is not None and not any(f.contract == base for f in st.frames) and not fr.f.name.startswith(('@H_',)) :
            self.contracts_used.add(base)
            return self.push_call(st, ins, self.m.funcs[cn], args, contract=base)
        h = BUILTINS.get(base)
        if h is not None:
            v = h(self, st, fr, ins, [a[1] for a in args])
            return self.finish_builtin(st, fr, ins, v, stop)
        if base.startswith('llvm.'):
            v = self.intrinsic(st, fr, ins, base, [a[1] for a in args])
            return self.finish_builtin(st, fr, ins, v, stop)
        f = self.m.funcs.get(name)
        if f is None:
            al = self.m.aliases.get(name)
            if al is not None and al[0] == 'g':
                f = self.m.funcs.get(al[1])
        if f is None:
            raise Unsupported('call to external function ' + base)
        return self.push_call(st, ins, f, args)

    def finish_builtin(self, st, fr, ins, v, stop):
        if isinstance(v, tuple) and v and v[0] == '__ctl__':
            return v[1]
        if ins.dst is not None:
            fr.env[ins.dst] = v
        if ins.op == 'invoke':
            return self.transition(st, fr, ins.x['normal'], stop)
        fr.idx += 1
        return None

    def push_call(self, st, ins, f, args, contract=None):
        if len(st.frames) > 60:
            raise Unsupported('call depth')
        if self.mode == 'proof' and sum(1 for x in st.frames if x.f is f) >= 6:
            raise Unsupported('recursion in ' + f.name)
        nf = Frame(f)
        nf.contract = contract
        nf.call = ins
        self.functions.add(f.name)
        for i, (t, pn, byval) in enumerate(f.params):
            if i >= len(args):
                raise Unsupported('missing argument calling ' + f.name)
            v = args[i][1]
            if byval is not None:
                n = self.m.sizeof(byval)
                o = self.new_obj(st, n, 'byval', 'stack', ('uninit', self.fresh_uf('byval')))
                nf.allocas.append(o.id)
                self.copy(st, Ptr(o.id, 0), v, n, ins)
                v = Ptr(o.id, 0)
            nf.env[pn] = v
        if f.vararg:
            nf.env['%varargs'] = args[len(f.params):]
        st.frames.append(nf)
        return None

    def copy(self, st, dst, src, n, ins, overlap_ok=True):
        if isinstance(n, int) and n == 0:
            return
        d = self.access(st, dst, n, ins, 'memcpy destination', write=True)
        s = self.access(st, src, n, ins, 'memcpy source')
        if d is None or s is None:
            return
        if not overlap_ok and d.obj == s.obj:
            dd = sub(d.off, s.off)
            c = b_or(eq(n, 0), eq(dd, 0), b_and(ule(n, dd), ule(n, norm(-bv(dd, 64)))))
            self.oblige(st, c, 'mem', 'memcpy ranges do not overlap', ins)
        so = st.mem[s.obj]
        if isinstance(n, int) and n in (1, 2, 4, 8):
            hit = st.uninit_hit
            v = self.read(st, so.node, so.base, s.off, n)
            self.write(st, d.obj, d.off, n, v)
            return
        self.write_ranged(st, d.obj, 'C', d.off, n, None, (so.node, so.base), s.off)

    def intrinsic(self, st, fr, ins, base, a):
        if base.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.copy(st, a[0], a[1], a[2], ins, overlap_ok='memmove' in base)
            return None
        if base.startswith('llvm.memset'):
            n = a[2]
            if isinstance(n, int) and n == 0:
                return None
            d = self.access(st, a[0], n, ins, 'memset', write=True)
            if d is not None:
                self.write_ranged(st, d.obj, 'F', d.off, n, a[1])
            return None
        if base.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.experimental', 'llvm.invariant')):
            return 0
        if base.startswith('llvm.assume'):
            return None
        if base.startswith(('llvm.threadlocal.address', 'llvm.launder.', 'llvm.strip.')):
            return a[0]
        if base.startswith('llvm.expect'):
            return a[0]
        if base.startswith('llvm.umul.with.overflow') or base.startswith('llvm.uadd.with.overflow') or base.startswith('llvm.usub.with.overflow'):
            w = int(base.rsplit('.i', 1)[1])
            o = {'umul': 'mul', 'uadd': 'add', 'usub': 'sub'}[base[5:9]]
            r = self.binop(st, o, a[0], a[1], w, {}, ins)
            A, B = bv(a[0], w), bv(a[1], w)
            if o == 'mul':
                ov = norm(z3.Not(z3.BVMulNoOverflow(A, B, False)))
            elif o == 'add':
                ov = ult(r, a[0], w)
            else:
                ov = ult(a[0], a[1], w)
            return (r, ov)
        if base.startswith('llvm.umax') or base.startswith('llvm.umin'):
            w = int(base.rsplit('.i', 1)[1])
            c = ult(a[0], a[1], w)
            return ite(c, a[1], a[0], w) if 'umax' in base else ite(c, a[0], a[1], w)
        if base.startswith('llvm.bswap'):
            w = int(base.rsplit('.i', 1)[1])
            v = a[0]
            if isinstance(v, int):
                return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
            return norm(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]))
        if base.startswith('llvm.trap') or base.startswith('llvm.debugtrap'):
            self.oblige(st, False, 'trap', 'no trap', ins)
            raise PathEnd()
        if base.startswith('llvm.va_'):
            return None
        if base.startswith('llvm.is.constant'):
            return False
        if base.startswith('llvm.objectsize'):
            return mask(64)
        if base.startswith('llvm.fmuladd'):
            return self.fbin('fadd', self.fbin('fmul', a[0], a[1], ins.ty), a[2], ins.ty)
        if base.startswith('llvm.eh.typeid.for'):
            return self.typeid(a[0])
        raise Unsupported('intrinsic ' + base)

    # ------------------------------------------------------------------ exceptions
    def typeid(self, p):
        if isinstance(p, Ptr):
            return 0x1000 + p.obj
        return 0

    def throw(self, st, tinfo, payload, ins, stop):
        st.exc = (tinfo, payload)
        return self.unwind(st, ins, stop)

    def exc_matches(self, st, tinfo, catch):
        if isinstance(catch, int) and catch == 0:
            return True
        if not isinstance(tinfo, Ptr) or not isinstance(catch, Ptr):
            return False
        cur = tinfo
        for _ in range(12):
            if cur.obj == catch.obj:
                return True
            o = self.obj(st, cur.obj)
            if o is None or not isinstance(o.size, int) or o.size < 24:
                return False
            nxt = self.read(st, o.node, o.base, 16, 8)
            if not isinstance(nxt, Ptr):
                return False
            cur = nxt
        return False

    def unwind(self, st, ins, stop):
        first = True
        while st.frames:
            fr = st.frames[-1]
            if not first or True:
                cur = fr.f.blocks[fr.block][fr.idx]
                if cur.op == 'invoke' and not (first and cur is ins and False):
                    tgt = cur.x['unwind']
                    # does the landing pad take it?
                    lp = [i for i in fr.f.blocks[tgt] if i.op == 'landingpad'][0]
                    take = False
                    for cl in lp.x:
                        if cl[0] == 'cleanup':
                            take = True
                        elif cl[0] == 'catch':
                            if self.exc_matches(st, st.exc[0], self.val(st, cl[1], ir.PTR)):
                                take = True
                        elif cl[0] == 'filter':
                            take = True
                    if take:
                        return self.transition(st, fr, tgt, stop)
            first = False
            if fr.f.name.startswith('@H_') or fr.call is None:
                self.oblige(st, False, 'throw', 'no exception escapes', ins)
                raise PathEnd()
            st.frames.pop()
            for oid in fr.allocas:
                o = st.mem.get(oid)
                if o is not None:
                    st.mem[oid] = o.upd(alive=False)
        raise PathEnd()

    def i_landingpad(self, st, fr, ins, stop):
        tinfo, payload = st.exc
        sel = 0
        for cl in ins.x:
            if cl[0] == 'catch':
                cv = self.val(st, cl[1], ir.PTR)
                if self.exc_matches(st, tinfo, cv):
                    sel = self.typeid(cv) if isinstance(cv, Ptr) else 0x1
                    break
            if cl[0] == 'filter':
                sel = mask(32)
                break
        fr.env[ins.dst] = (payload, sel)
        fr.idx += 1

    def i_resume(self, st, fr, ins, stop):
        # pop this frame and continue unwinding
        st.frames.pop()
        for oid in fr.allocas:
            o = st.mem.get(oid)
            if o is not None:
                st.mem[oid] = o.upd(alive=False)
        if not st.frames or fr.call is None:
            self.oblige(st, False, 'throw', 'no exception escapes', ins)
            raise PathEnd()
        return self.unwind(st, ins, stop)

    # ------------------------------------------------------------------ ghost evaluation
    def call_ghost(self, st, fname, args):
        """run harness function on a copy of st; returns list of (state,result)"""
        s = st.clone()
        s.ghost = st.ghost + 1
        keep = s.frames
        s.frames = []
        f = self.m.funcs[fname]
        nf = Frame(f)
        for (t, pn, _), v in zip(f.params, args):
            nf.env[pn] = v
        s.frames.append(nf)
        s.icmps = None
        res = self.explore(s)
        return [(x, x.result) for k, x in res if k == 'done']

    def eval_pred(self, st, fname, args=()):
        """truth value (formula) of a pure harness predicate in st"""
        outs = self.call_ghost(st, fname, args)
        n = len(st.pc)
        fs = []
        for s2, r in outs:
            rel = s2.pc[n:]
            fs.append(b_and(*(list(rel) + [to_bool(r)])))
        return b_or(*fs)

    def eval_term(self, st, fname, args=()):
        outs = self.call_ghost(st, fname, args)
        n = len(st.pc)
        r = None
        for s2, v in outs:
            if isinstance(v, bool):
                v = int(v)
            if r is None:
                r = v
            else:
                r = ite(b_and(*s2.pc[n:]), v, r, 64)
        return r

    def lazy_materialise(self, st, base, idx):
        _, lid, es, initfn, count = base
        cs = self.cur_stop
        if cs is not None and not st.ghost and self.mode == 'proof' and self.is_old(idx, cs.n0):
            raise Hoist(lazy=(base, idx))
        # run the element initialiser (specification code) on a scratch slot
        s = st.clone()
        self.obj_n += 1
        slot = Obj(self.obj_n, es, 'lazyslot', 'lazyslot', ('uninit', self.fresh_uf('slot')))
        s.mem[slot.id] = slot
        s.frames = []
        f = self.m.funcs[initfn]
        nf = Frame(f)
        nf.env[f.params[0][1]] = idx
        nf.env[f.params[1][1]] = Ptr(slot.id, 0)
        s.frames.append(nf)
        s.ghost = st.ghost + 1
        s.icmps = None
        res = [x for k, x in self.explore(s) if k == 'done']
        if not res:
            raise PathEnd()
        if len(res) > 1:
            raise LazyFork(lid, idx, slot.id, res, st)
        self.lazy_apply(st, lid, idx, slot.id, res[0])

    def lazy_apply(self, st, lid, idx, slotid, s):
        o = s.mem[slotid]
        st.pc = list(s.pc)
        st.nd = list(s.nd)
        for k, v in s.mem.items():
            if k != slotid:
                st.mem[k] = v
        del_ids = [k for k in st.mem if k == slotid]
        for k in del_ids:
            del st.mem[k]
        for k, v in s.lazy.items():
            st.lazy[k] = v
        st.meta = dict(s.meta)
        st.lazy[lid] = st.lazy.get(lid, ()) + ((idx, o.node, o.base),)

    # ------------------------------------------------------------------ entry
    def verify(self, fname):
        """run harness; returns True when finished"""
        if not fname.startswith('@'):
            fname = '@' + fname
        while True:
            st = new_state()
            f = self.m.funcs[fname]
            st.frames.append(Frame(f))
            self.obl = {}
            self.failures = []
            self.covers = {}
            self.paths = 0
            self.houdini = []
            self.truncated = 0
            try:
                outs = self.explore(st)
                self.completed = len(outs)
                return True
            except Restart as r:
                self.cutset.add(r.key)
                continue
            except Failed:
                return True

    # ------------------------------------------------------------------ loop cutting
    def cut_loop(self, st, fr, header, src):
        from .loops import cut_loop
        return cut_loop(self, st, fr, header, src)


class LazyFork(Exception):
    def __init__(self, lid, idx, slot, res, st):
        self.a = (lid, idx, slot, res)


def float_bits(v, rt):
    if rt.k == 'double':
        return int.from_bytes(struct.pack('<d', v), 'little')
    return int.from_bytes(struct.pack('<f', v), 'little')


for _op in ir.BIN:
    if _op[0] == 'f':
        def _mk(op):
            def h(self, st, fr, ins, stop):
                a = self.val(st, ins.a[0], ins.ty)
                b = self.val(st, ins.a[1], ins.ty)
                fr.env[ins.dst] = self.fbin(op, a, b, self.m.resolve(ins.ty))
                fr.idx += 1
            return h
    else:
        def _mk(op):
            def h(self, st, fr, ins, stop):
                a = self.val(st, ins.a[0], ins.ty)
                b = self.val(st, ins.a[1], ins.ty)
                fr.env[ins.dst] = self.binop(st, op, a, b, self.m.resolve(ins.ty).n, ins.x, ins)
                fr.idx += 1
            return h
    setattr(Engine, 'i_' + _op, _mk(_op))
for _op in ir.CAST:
    def _mk(op):
        def h(self, st, fr, ins, stop):
            fr.env[ins.dst] = self.cast(st, op, self.val(st, ins.a[0], ins.x), ins.x, ins.ty)
            fr.idx += 1
        return h
    setattr(Engine, 'i_' + _op, _mk(_op))

BUILTINS = {}
from . import builtins as _b   # noqa: E402
