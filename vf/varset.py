import z3

# ------------------------------------------------------------- variable sets
_vars_cache = {}


def vars_of(e):
    """set of uninterpreted symbol names in e"""
    k = e.get_id()
    r = _vars_cache.get(k)
    if r is not None:
        return r[1]
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        c = _vars_cache.get(i)
        if c is not None:
            out |= c[1]
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            st.extend(x.children())
    fs = frozenset(out)
    _vars_cache[k] = (e, fs)
    return fs


