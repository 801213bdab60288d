"""Loop cutting: frame inference, candidate invariants, Houdini pruning."""
import z3
from . import ir
from .sym import *
from .mem import *


class Term:
    __slots__ = ('kind', 'a', 'w')

    def __init__(self, kind, a, w):
        self.kind = kind
        self.a = a
        self.w = w

    def key(self):
        return (self.kind, self.a)


class View:
    """phi values + memory of a state at the loop header"""

    def __init__(self, eng, st, phis, K):
        self.eng = eng
        self.st = st
        self.phis = phis
        self.K = K

    def slot(self, k):
        """pointer held by a variable that owns a growing block"""
        if k[0] == 'phi':
            return self.phis[k[1]]
        o = self.eng.obj(self.st, k[1])
        if o is None:
            return None
        self.eng.in_view += 1
        try:
            return self.eng.read(self.st, o.node, o.base, k[2], 8)
        except (Fork, Unsupported):
            return None
        finally:
            self.eng.in_view -= 1

    def get(self, t):
        """BV64 / int value of a term, or None"""
        if t.kind == 'K':
            return self.K
        if t.kind == 'user':
            try:
                v = self.eng.eval_term(self.st, t.a)
            except (Fork, Unsupported):
                return None
            return v
        if t.kind == 'bsize':
            p = self.slot(t.a)
            o = self.eng.obj(self.st, p.obj) if isinstance(p, Ptr) else None
            return o.size if o is not None else None
        if t.kind == 'phi':
            v = self.phis[t.a]
        else:
            oid, off, n = t.a
            o = self.eng.obj(self.st, oid)
            if o is None:
                return None
            self.eng.in_view += 1
            try:
                v = self.eng.read(self.st, o.node, o.base, off, n)
            except (Fork, Unsupported):
                return None
            finally:
                self.eng.in_view -= 1
        if isinstance(v, Ptr):
            return v.off
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, (float, tuple)):
            return None
        if z3.is_bool(v):
            return norm(z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
        if z3.is_fp(v):
            return None
        if v.size() < 64:
            return norm(z3.ZeroExt(64 - v.size(), v))
        if v.size() > 64:
            return None
        return v


def regions(eng, h, e):
    """what e wrote to objects that existed in h"""
    out = set()
    pats = set()
    freed = set()
    for oid, o in e.mem.items():
        o0 = h.mem.get(oid)
        if o0 is None:
            if oid in eng.init_mem:
                o0 = eng.init_mem[oid]
            else:
                continue
        if o0 is o:
            continue
        if o0.alive is True and o.alive is not True:
            freed.add(oid)
        if not isinstance(o0.size, int) or not isinstance(o.size, int):
            if o0.size is not o.size and not (z3.is_expr(o0.size) and z3.is_expr(o.size) and o0.size.eq(o.size)):
                raise Unsupported('object resized in loop')
        n = o.node
        while n is not o0.node:
            if n is None:
                raise Unsupported('object content replaced in loop')
            if n.kind == 'S' and isinstance(n.off, int):
                # a store of the value that is already there is not a modification
                same = False
                try:
                    pv = eng.read(h, o0.node, o0.base, n.off, n.n)
                    if isinstance(pv, Ptr) and isinstance(n.v, Ptr):
                        same = pv.obj == n.v.obj and (pv.off is n.v.off or (isinstance(pv.off, int) and isinstance(n.v.off, int) and pv.off == n.v.off) or
                                                      (z3.is_expr(pv.off) and z3.is_expr(n.v.off) and pv.off.eq(n.v.off)))
                    elif isinstance(pv, int) and isinstance(n.v, int):
                        same = pv == n.v
                    elif z3.is_expr(pv) and z3.is_expr(n.v):
                        same = pv.eq(n.v)
                except (Fork, Unsupported):
                    pass
                if not same:
                    out.add((oid, n.off, n.n))
            elif n.kind == 'P':
                if o0.base[0] != 'lazy' or o0.base[2] != n.off[0]:
                    raise Unsupported('pattern of another array')
                pats.add((oid, n.off[1], n.n))
            else:
                if n.kind == 'S' and o0.base[0] == 'lazy' and not isinstance(n.off, int):
                    try:
                        inner = eng.split_index(e, n.off, o0.base[2])[1]
                    except Unsupported:
                        inner = None
                    if isinstance(inner, int) and inner + n.n <= o0.base[2]:
                        # the same member of arbitrary elements
                        pats.add((oid, inner, n.n))
                        n = n.prev
                        continue
                if isinstance(n.off, int) and isinstance(n.n, int) and n.n <= 16:
                    for i in range(n.n):
                        out.add((oid, n.off + i, 1))
                else:
                    out.add((oid, None, None))
            n = n.prev
    return out, pats, freed


class Again(Exception):
    pass


def cut_loop(eng, st, fr, header, src):
    while True:
        try:
            return cut_loop_(eng, st, fr, header, src)
        except Again:
            continue


def cut_loop_(eng, st, fr, header, src):
    f = fr.f
    body = ir.find_loops(f)[header]
    phis = [i for i in f.blocks[header] if i.op == 'phi']
    entry = {}
    for p in phis:
        for v, b in p.x:
            if b == src:
                entry[p.dst] = eng.val(st, v, p.ty)
    depth = len(st.frames)
    fr.prev = src
    # pointers that advance by a constant which is no power of two: start + iteration * stride by construction
    induct = {}
    defs = {i.dst: i for b in body for i in f.blocks[b] if i.dst}
    for p in phis:
        if eng.m.resolve(p.ty).k != 'ptr':
            continue
        ss = set()
        for v, b in p.x:
            if b == src:
                continue
            s = 0
            while isinstance(v, tuple) and v[0] == 'l' and v[1] != p.dst and v[1] in defs and defs[v[1]].op == 'getelementptr' and len(defs[v[1]].x) == 1:
                g = defs[v[1]]
                iv = eng.const_int(g.x[0][1])
                if iv is None:
                    break
                s += eng.m.sizeof(g.ty) * iv
                v = g.a[0]
            ss.add(s if isinstance(v, tuple) and v[0] == 'l' and v[1] == p.dst else None)
        if len(ss) == 1:
            s = ss.pop()
            if s and s > 0 and s & (s - 1):
                induct[p.dst] = s
    n0 = eng.fresh_n
    outer = eng.cur_stop
    W = {}                 # region -> True
    P = set()              # members of the elements of lazy arrays
    wild = set()
    dropped = set()
    bufs = {}              # variable that owns a growing block -> the block before the loop
    cur = {}               # ... -> the block at the current header
    V = {}                 # key -> term
    strides = {}

    def addV(v, w=64):
        if isinstance(v, Ptr):
            v = v.off
        if isinstance(v, bool) or v is None or isinstance(v, (float, tuple)):
            return
        if z3.is_expr(v):
            if z3.is_bool(v) or z3.is_fp(v) or v.size() > 64:
                return
            if v.size() < 64:
                v = norm(z3.ZeroExt(64 - v.size(), v))
        k = v if isinstance(v, int) else ('e', v.get_id())
        if k not in V and len(V) < 24:
            V[k] = v
    for w in st.watch:
        addV(w)
    for t, pn, _ in f.params:
        if eng.m.resolve(t).k == 'int':
            addV(fr.env.get(pn))

    ev = View(eng, st, entry, 0)
    first = True
    passes = 0
    tags = {}
    live = [1]
    entry_ok = {}
    log = {'loop': f.name.lstrip('@') + header, 'passes': 0}

    def mkheader(quiet):
        h = st.clone()
        h.cut = True
        hf = h.frames[-1]
        hp = {}
        fresh_names = set()
        K = eng.fresh('iter', 64)
        fresh_names |= vars_of(K)
        cur.clear()
        for slot, oid in bufs.items():
            # some block of some size with some content; the one the loop started with is gone
            h.mem[oid] = eng.obj(h, oid).upd(alive=False)
            size = eng.fresh('buf_size', 64)
            fresh_names |= vars_of(size)
            uf = eng.fresh_uf('buf')
            fresh_names.add(uf)
            eng.assume_cond(h, ule(size, 1 << 42))
            cur[slot] = eng.new_obj(h, size, 'buf', 'heap', ('fresh', uf)).id
            if slot[0] == 'cell':
                eng.write(h, slot[1], slot[2], 8, Ptr(cur[slot], 0))
        for p in phis:
            rt = eng.m.resolve(p.ty)
            e = entry[p.dst]
            if ('phi', p.dst) in bufs:
                hp[p.dst] = Ptr(cur[('phi', p.dst)], 0)
                continue
            if rt.k == 'int' and rt.n == 1:
                eng.fresh_n += 1
                v = z3.Bool('phi_%s!%d' % (p.dst[1:], eng.fresh_n))
            elif rt.k == 'int':
                v = eng.fresh('phi_' + p.dst[1:], rt.n)
            elif rt.k == 'ptr':
                if isinstance(e, Ptr) and p.dst in induct and p.dst not in wild:
                    hp[p.dst] = Ptr(e.obj, add(e.off, mul(K, induct[p.dst])))
                    continue
                if isinstance(e, Ptr) and p.dst not in wild:
                    v = Ptr(e.obj, eng.fresh('phi_' + p.dst[1:], 64))
                else:
                    v = eng.fresh('phi_' + p.dst[1:], 64)
            else:
                raise Unsupported('phi of type %r' % rt)
            hp[p.dst] = v
            x = v.off if isinstance(v, Ptr) else v
            fresh_names |= vars_of(x)
        whole = set(r[0] for r in W if r[1] is None)
        for (oid, inner, n) in sorted(P):
            if oid in whole:
                continue
            o = eng.obj(h, oid)
            uf = eng.fresh_uf('hm_' + str(o.name).strip('%@'))
            h.mem[oid] = o.upd(node=Node('P', (o.base[2], inner), n, uf, o.node))
            fresh_names.add(uf)
        for (oid, off, n) in sorted(W, key=lambda r: (r[0], -1 if r[1] is None else r[1], r[2] or 0)):
            o = eng.obj(h, oid)
            if off is None:
                uf = eng.fresh_uf('hv_' + str(o.name).strip('%@'))
                eng.write_ranged(h, oid, 'H', 0, o.size, uf)
                fresh_names.add(uf)
        for (oid, off, n) in sorted((r for r in W if r[1] is not None)):
            if oid in whole or ('cell', oid, off) in bufs:
                continue
            o = eng.obj(h, oid)
            v = eng.fresh('hv_%s_%s' % (str(o.name).strip('%@'), off), 8 * n)
            fresh_names |= vars_of(v)
            eng.write(h, oid, off, n, v)
            if o.kind == 'stack' and isinstance(o.size, int) and o.size > 8:
                h.mem[oid].node.tag = tags.setdefault((oid, off, n), [0])
        hf.env.update(hp)
        hf.prev = src
        hf.block = header
        hf.idx = len(phis)
        hf.visits[header] = 0
        h.quiet = st.quiet + (1 if quiet else 0)
        return h, View(eng, h, hp, K), fresh_names

    def terms():
        ts = [Term('K', 'K', 64)]
        for p in phis:
            rt = eng.m.resolve(p.ty)
            if rt.k == 'ptr' and (p.dst in wild or not isinstance(entry[p.dst], Ptr) or ('phi', p.dst) in bufs):
                continue
            ts.append(Term('phi', p.dst, rt.n if rt.k == 'int' else 64))
        for k in bufs:
            ts.append(Term('bsize', k, 64))
        for name in st.terms:
            ts.append(Term('user', name, 64))
        whole = set(r[0] for r in W if r[1] is None)
        for (oid, off, n) in sorted(r for r in W if r[1] is not None):
            if oid in whole or n not in (1, 2, 4, 8) or ('cell', oid, off) in bufs:
                continue
            if tags.get((oid, off, n), live) == [0]:
                continue        # scratch: overwritten before it is read in the body
            ts.append(Term('cell', (oid, off, n), 8 * n))
        return ts

    def candidates():
        """list of (key, fn(View)->formula)"""
        cs = []
        ts = terms()
        e0 = {t.key(): ev.get(t) for t in ts}
        ts = [t for t in ts if e0[t.key()] is not None]

        def val2(view, t):
            v = view.get(t)
            return v

        for t in ts:
            x0 = e0[t.key()]
            cs.append((('same', t.key()), lambda vw, t=t, x0=x0: eqn(vw.get(t), x0)))
            if t.kind == 'K':
                continue
            cs.append((('ge0', t.key()), lambda vw, t=t, x0=x0: len_(x0, vw.get(t))))
            cs.append((('le0', t.key()), lambda vw, t=t, x0=x0: len_(vw.get(t), x0)))
            if t.w in (8, 32) :
                cs.append((('bool', t.key()), lambda vw, t=t: len_(vw.get(t), 1)))
            if t.w == 32 or t.w == 64:
                cs.append((('nonneg', t.key()), lambda vw, t=t: len_(vw.get(t), (1 << (t.w - 1)) - 1)))
            for kv, v in (V.items() if t.kind != 'cell' or t.w == 64 else ()):
                cs.append((('le', t.key(), kv), lambda vw, t=t, v=v: len_(vw.get(t), v)))
                cs.append((('lt', t.key(), kv), lambda vw, t=t, v=v: ltn(vw.get(t), v)))
                cs.append((('ge', t.key(), kv), lambda vw, t=t, v=v: len_(v, vw.get(t))))
                cs.append((('gt', t.key(), kv), lambda vw, t=t, v=v: ltn(v, vw.get(t))))
                cs.append((('ne', t.key(), kv), lambda vw, t=t, v=v: neg(eqn(vw.get(t), v))))
        for i, t in enumerate(ts):
            for u in ts[i + 1:]:
                x0, y0 = e0[t.key()], e0[u.key()]
                cs.append((('dif', t.key(), u.key()), lambda vw, t=t, u=u, x0=x0, y0=y0: rel(vw.get(t), x0, vw.get(u), y0, 1)))
                cs.append((('sum', t.key(), u.key()), lambda vw, t=t, u=u, x0=x0, y0=y0: rel(vw.get(t), x0, vw.get(u), y0, -1)))
                a, b = strides.get(t.key()), strides.get(u.key())
                if a and b and a != b and (mask(64) - a + 1) != b:
                    sa, sb = sgn(a, 64), sgn(b, 64)
                    if sa % sb == 0:
                        cs.append((('sc', t.key(), u.key(), sa // sb), lambda vw, t=t, u=u, x0=x0, y0=y0, c=sa // sb: rel(vw.get(t), x0, vw.get(u), y0, c)))
                    elif sb % sa == 0:
                        cs.append((('sc', u.key(), t.key(), sb // sa), lambda vw, t=t, u=u, x0=x0, y0=y0, c=sb // sa: rel(vw.get(u), y0, vw.get(t), x0, c)))
                if u.kind != 'K' and t.kind != 'K' and t.w == u.w == 64:
                    cs.append((('ple', t.key(), u.key()), lambda vw, t=t, u=u: len_(vw.get(t), vw.get(u))))
                    cs.append((('pge', t.key(), u.key()), lambda vw, t=t, u=u: len_(vw.get(u), vw.get(t))))
                    if bufs:
                        cs.append((('plt', t.key(), u.key()), lambda vw, t=t, u=u: ltn(vw.get(t), vw.get(u))))
                        cs.append((('pgt', t.key(), u.key()), lambda vw, t=t, u=u: ltn(vw.get(u), vw.get(t))))
                # watch coupling:  u is a counter/flag bumped when t passes the watched value
                for (c, g, g0) in ((t, u, y0), (u, t, x0)):
                    if g.kind != 'cell' or g0 is None or c.kind == 'cell':
                        continue
                    for wi, wv in enumerate(st.watch):
                        cs.append((('wc', c.key(), g.key(), wi), lambda vw, c=c, g=g, g0=g0, wv=wv: watchc(vw.get(c), wv, vw.get(g), g0)))
                        cs.append((('wd', c.key(), g.key(), wi), lambda vw, c=c, g=g, g0=g0, wv=wv: watchd(vw.get(c), wv, vw.get(g), g0)))
        for name in st.invs:
            cs.append((('user', name), lambda vw, name=name: user_pred(vw, name)))
        return cs

    def user_pred(vw, name):
        eng.loop_buf = next((vw.slot(k) for k in bufs if k[0] == 'phi'), 0)
        try:
            return eng.eval_pred(vw.st, name)
        finally:
            eng.loop_buf = 0

    def prune(cs, vw, pc):
        """drop candidates that are not valid under pc; returns surviving"""
        fs = []
        for k, fn in cs:
            try:
                g = fn(vw)
            except (Fork, Unsupported):
                g = None
            if g is None or g is False:
                dropped.add(k)
                continue
            if g is True:
                continue
            fs.append((k, g))
        rounds = 0
        while fs:
            vals = eng.solver.falsify(pc, [g for _, g in fs])
            if vals == 'unsat':
                break
            if vals is not None:
                for (k, g), v in zip(fs, vals):
                    if not v:
                        dropped.add(k)
                fs = [x for x, v in zip(fs, vals) if v]
                continue
            conj = z3.And(*[g for _, g in fs]) if len(fs) > 1 else fs[0][1]
            res, m = eng.solver.check(pc, z3.Not(conj), want_model=True)
            if res == 'unsat':
                break
            if res == 'unknown':
                keep = []
                for k, g in fs:
                    if eng.solver.check(pc, z3.Not(g), timeout_ms=3000) == 'unsat':
                        keep.append((k, g))
                    else:
                        dropped.add(k)
                fs = keep
                break
            keep = []
            for k, g in fs:
                if z3.is_true(m.eval(g, model_completion=True)):
                    keep.append((k, g))
                else:
                    dropped.add(k)
            if len(keep) == len(fs):
                k, g = fs[-1]
                dropped.add(k)
                keep = fs[:-1]
            fs = keep
            rounds += 1

    def owner(h, e, oid):
        """the loop variable that held the block oid (released in the body) and holds another block now"""
        o = h.mem.get(oid)
        if o is None or o.kind != 'heap':
            return None
        ef = e.frames[-1]
        found = []
        for p in phis:
            x = entry[p.dst]
            if isinstance(x, Ptr) and x.obj == oid and x.off == 0 and type(x.off) is int:
                for v, b in p.x:
                    if b == ef.prev:
                        y = eng.val(e, v, p.ty)
                        if isinstance(y, Ptr) and type(y.off) is int and y.off == 0 and y.obj not in h.mem:
                            found.append(('phi', p.dst))
        for mid, mo in h.mem.items():
            if mo.alive is not True or not isinstance(mo.size, int) or mo.size > 4096 or mo.node is None:
                continue
            n = mo.node
            while n is not None:
                if n.kind == 'S' and n.n == 8 and isinstance(n.off, int) and isinstance(n.v, Ptr) and n.v.obj == oid and n.v.off == 0 and type(n.v.off) is int:
                    ke = ('cell', mid, n.off)
                    x, y = View(eng, h, {}, 0).slot(ke), View(eng, e, {}, 0).slot(ke)
                    if isinstance(x, Ptr) and x.obj == oid and isinstance(y, Ptr) and type(y.off) is int and y.off == 0 and y.obj not in h.mem and ke not in found:
                        found.append(ke)
                n = n.prev
        return found[0] if len(found) == 1 else None

    def check_bufs(h, e, bp):
        seen = set()
        for slot, oid in cur.items():
            x = bp.get(slot[1]) if slot[0] == 'phi' else View(eng, e, bp, 0).slot(slot)
            if not isinstance(x, Ptr) or type(x.off) is not int or x.off != 0 or x.obj in seen:
                raise Unsupported('owner of a growing block holds something else')
            seen.add(x.obj)
            o = eng.obj(e, x.obj)
            if o is None or o.alive is not True or o.kind != 'heap' or (x.obj != oid and x.obj in h.mem):
                raise Unsupported('owner of a growing block holds something else')
            if x.obj != oid and e.mem[oid].alive is True:
                raise Unsupported('growing block is lost')

    checked_entry = set()

    def run(quiet):
        h, hv, fresh_names = mkheader(quiet)
        cs = [c for c in candidates() if c[0] not in dropped]
        new = [c for c in cs if c[0] not in checked_entry]
        if new:
            before = set(dropped)
            prune(new, ev, st.pc)
            for c in new:
                checked_entry.add(c[0])
            cs = [c for c in cs if c[0] not in dropped]
        used = []
        names = set(k for k, _ in cs)
        for k, fn in cs:
            try:
                g = fn(hv)
            except (Fork, Unsupported):
                dropped.add(k)
                continue
            if g is None or g is False:
                dropped.add(k)
                continue
            used.append((k, fn))
            if k[0] in ('le', 'ne') and ('lt',) + k[1:] in names:
                continue
            if k[0] in ('ge', 'ne') and ('gt',) + k[1:] in names:
                continue
            if g is not True:
                eng.assume_cond(h, g)
        K = hv.K
        eng.assume_cond(h, norm(z3.ULT(K, z3.BitVecVal(1 << (50 if induct else 62), 64))))
        if quiet:
            h.icmps = []
        else:
            h.icmps = st.icmps
        start = h.clone()
        start.icmps = h.icmps
        stop = _mkstop(depth, header, body, n0)
        try:
            outs = eng.explore(start, stop)
        except Hoist as hx:
            eng.cur_stop = outer
            if hx.lazy is None:
                fc = [c for c in hx.conds if not isinstance(c, bool)]
                if len([c for c in fc if eng.may(st, c)]) < 2:
                    for c in fc:
                        eng.nohoist[c.get_id()] = c
                    raise Again()
                raise Fork(hx.conds)
            base, idx = hx.lazy
            inr = ult(idx, base[4])
            if not eng.must(st, inr):
                if not eng.may(st, inr):
                    raise Unsupported('lazy element')
                raise Fork([inr, b_not(inr)])
            for (ix, node, b) in st.lazy.get(base[1], ()):
                e = eq(ix, idx)
                if eng.may(st, e):
                    if eng.must(st, e):
                        raise Unsupported('lazy element already there')
                    raise Fork([e, b_not(e)])
            eng.lazy_materialise(st, base, idx)
            raise Again()
        return h, hv, fresh_names, used, outs

    while True:
        passes += 1
        if passes > 60:
            raise Unsupported('loop invariant inference did not converge in ' + f.name)
        _t = __import__('time').time(); _q = eng.solver.queries; _s = eng.solver.time
        h, hv, fresh_names, used, outs = run(True)
        if eng.debug:
            print('  pass', passes, f.name, header, 'outs', len(outs), 'cands', len(used), 'dropped', len(dropped), 'W', len(W), 't %.2f' % (__import__('time').time() - _t), 'q', eng.solver.queries - _q, 'st %.2f' % (eng.solver.time - _s), flush=True)
        # widen the frame
        grown = False
        for k, e in outs:
            eng.in_view += 1
            try:
                rg, pats, freed = regions(eng, h, e)
            finally:
                eng.in_view -= 1
            own = set(cur.values())
            rg = set(r for r in rg if r[0] not in own)
            for r in pats:
                if r not in P and (r[0], None, None) not in W:
                    P.add(r)
                    grown = True
            freed -= own
            if k == 'back':
                bufs_before = len(bufs)
                for oid in sorted(freed):
                    slot = owner(h, e, oid)
                    if slot is None:
                        break
                    bufs[slot] = oid
                    freed.discard(oid)
                if len(bufs) > bufs_before:
                    grown = True
                    dropped.clear()
                    checked_entry.clear()
            elif freed:
                # the path leaves the loop; the block may be one whose owner grows it on the paths that stay
                freed = set(o for o in freed if not isinstance(h.mem.get(o), Obj))
            if freed:
                raise Unsupported('loop in %s frees an object that exists before it' % f.name)
            for r in rg:
                if r not in W and (r[0], None, None) not in W:
                    o = h.mem.get(r[0]) or eng.init_mem.get(r[0])
                    if o.kind == 'stack' and o.alive is False:
                        continue
                    W[r] = True
                    grown = True
        # overlapping cells -> whole object
        byobj = {}
        for r in list(W):
            if r[1] is not None:
                byobj.setdefault(r[0], []).append(r)
        for oid, rs in byobj.items():
            rs.sort(key=lambda r: r[1])
            for a, b in zip(rs, rs[1:]):
                if a[1] + a[2] > b[1]:
                    W[(oid, None, None)] = True
                    grown = True
                    break
        for oid in [r[0] for r in W if r[1] is None]:
            for r in [r for r in W if r[0] == oid and r[1] is not None]:
                del W[r]
        # wild pointers
        backs = [(e, {}) for k, e in outs if k == 'back']
        for e, bp in backs:
            ef = e.frames[-1]
            for p in phis:
                for v, b in p.x:
                    if b == ef.prev:
                        bp[p.dst] = eng.val(e, v, p.ty)
            check_bufs(h, e, bp)
            for p in phis:
                x = bp[p.dst]
                if isinstance(entry[p.dst], Ptr) and p.dst not in wild and ('phi', p.dst) not in bufs and eng.m.resolve(p.ty).k == 'ptr':
                    if not isinstance(x, Ptr) or x.obj != entry[p.dst].obj:
                        wild.add(p.dst)
                        grown = True
        if grown:
            continue
        # invariant terms seen in comparisons
        nv = len(V)
        for (d, blk, a, b, w) in (h.icmps or []):
            if d < depth:
                continue
            for x in (a, b):
                x = x.off if isinstance(x, Ptr) else x
                if isinstance(x, int) and not isinstance(x, bool):
                    if d == depth and x < 1 << 40:
                        addV(x)
                elif z3.is_expr(x) and not (vars_of(x) & fresh_names) and not any(born_after(n, n0) for n in vars_of(x)):
                    addV(x)
        # strides
        ns = dict(strides)
        for t in terms():
            s = None
            ok = True
            for e, bp in backs:
                b = View(eng, e, bp, add(hv.K, 1)).get(t)
                a = hv.get(t)
                if a is None or b is None:
                    ok = False
                    break
                d = sub(b, a)
                if not isinstance(d, int) or (s is not None and s != d):
                    ok = False
                    break
                s = d
            if ok and s:
                ns[t.key()] = s
        more = len(V) > nv or ns != strides
        strides.update(ns)
        nd = len(dropped)
        for e, bp in backs:
            left = [(k, fn) for k, fn in used if k not in dropped]
            prune(left, View(eng, e, bp, add(hv.K, 1)), e.pc)
        if len(dropped) == nd and not more:
            break
    log['passes'] = passes
    log['invariants'] = len([k for k, _ in used if k not in dropped])
    log['user'] = sorted(k[1].lstrip('@') for k, _ in used if k[0] == 'user' and k not in dropped)
    log['user_dropped'] = sorted(k[1].lstrip('@') for k in dropped if k[0] == 'user')
    eng.houdini.append(log)
    if eng.debug:
        print('LOOP', log['loop'], 'passes', passes, 'W', [(eng.obj(st, r[0]).name, r[1], r[2]) for r in W])
        for k, fn in used:
            if k not in dropped:
                print('    inv', k)
    # final pass with obligations switched on
    h, hv, fresh_names, used, outs = run(False)
    res = []
    for k, e in outs:
        if k == 'exit':
            e.quiet = st.quiet
            e.icmps = st.icmps
            res.append(e)
    return res


def born_after(n, n0):
    i = n.rfind('!')
    return i >= 0 and n[i + 1:].isdigit() and int(n[i + 1:]) > n0


def known_names(st):
    r = set()
    for c in st.pc:
        r |= vars_of(c)
    return r


def _mkstop(depth, header, body, n0):
    from .engine import LoopStop
    return LoopStop(depth, header, body, n0)


def eqn(a, b):
    if a is None or b is None:
        return None
    return eq(a, b)


def len_(a, b):
    if a is None or b is None:
        return None
    return ule(a, b)


def ltn(a, b):
    if a is None or b is None:
        return None
    return ult(a, b)


def neg(c):
    return None if c is None else b_not(c)


def rel(x, x0, y, y0, c):
    if x is None or y is None:
        return None
    return eq(sub(x, x0), mul(sub(y, y0), c & mask(64)))


def watchc(c, w, g, g0):
    if c is None or g is None:
        return None
    return eq(g, ite(ult(w, c), add(g0, 1), g0, 64))


def watchd(c, w, g, g0):
    """down-counting variant"""
    if c is None or g is None:
        return None
    return eq(g, ite(ult(w, c), g0, add(g0, 1), 64))
