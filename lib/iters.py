"""Iterator consumers that run a closure over what an iterator yields, for every iterator whose `next` is known.

The standard library overrides these methods for slices and hash tables with pointer loops; what they mean is the loop over `next`.
"""
from interp import const, tok, UNIT, NONE, _some, fork2, BUILTIN, R
NEXT = {'u': 'core::iter::traits::iterator::Iterator::next', 'path': 'next', 'name': 'next', 'crate': 'core', 'key': None}
class Unknown(Exception): pass

def pull(I, st, fr, root, c, dty, depth, bb):
    """[(state, None | element)] for one `next()` of the iterator stored at root."""
    it = st.mem[root]
    if it[0] == 'tok': it = st.mem[root] = ('iter', it[1], 0)
    nc = NEXT if it[0] == 'iter' or not c.get('next') else c['next']
    if nc is NEXT and it[0] != 'iter': raise Unknown
    out = []
    for s, v in I.call_fn(st, fr, nc, [('ref', root, ())], [None], c.get('next_ty', dty), depth + 1, bb):
        out += [(s2, None if n == 'None' else e) for s2, n, e in fork2(s, v, ('None', 'Some'))]
    return out
def loop(I, st, fr, c, args, dty, depth, bb, body, end, fpos=1, init=None):
    """body(state, call, element, acc) -> [(state, acc, result or None)]; end(state, acc) -> result."""
    it = I.deref(st, args[0], 8)
    ref = None
    if args[0][0] == 'ref':      # by reference (`find`, `any`, …): the caller's iterator advances
        tg = I.target(args[0]); v = I.read_path(st, *tg)
        while v[0] == 'ref': tg = (v[1], v[2]); v = I.read_path(st, *tg)
        ref = tg
    if it[0] not in ('iter', 'adt', 'tok'): return None
    st = st.copy(); I.fid += 1; root = (I.fid, 'it'); st.mem[root] = it
    f = args[fpos] if len(args) > fpos else None; sref = None
    if f is not None:
        f = I.deref(st, f, 8)
        if f[0] == 'clo': I.fid += 1; fr_root = (I.fid, 'clo'); st.mem[fr_root] = f; sref = ('ref', fr_root, ())
    def call(s, xs):
        if f[0] == 'clo': return I.call_closure(s, fr, f, xs, depth, sref)
        return I.call_value(s, fr, f, xs, [None] * len(xs), None, depth, bb)
    out = []; work = [(st, init, 0)]
    def done(s, v):
        if ref is not None: I.write_path(s, ref[0], ref[1], s.mem[root])
        out.append((s, v))
    try:
        while work:
            s, acc, n = work.pop()
            if n > I.maxlen + 1 and not isinstance(s.mem[root][1], tuple): s.cut = 'iterate'; I.cuts += 1; out.append((s, ('top',))); continue
            for s2, e in pull(I, s, fr, root, c, dty, depth, bb):
                if e is None: done(s2, end(s2, acc)); continue
                for s3, a2, r in body(s2, call, e, acc):
                    if r is None: work.append((s3, a2, n + 1))
                    else: done(s3, r)
    except Unknown: return None
    return out
def both(I, s, v):
    """[(state, truth)] of a boolean value."""
    v = I.deref(s, v)
    t = I.truth(s, v)
    if t is not None: return [(s, t)]
    if v[0] not in ('tok', 'not'): raise Unknown
    o = []
    for t in (True, False): s2 = s.copy(); I.assume(s2, v[1], t != (v[0] == 'not')); o.append((s2, t))
    return o

def for_each(I, st, fr, c, args, atys, dty, depth, bb):
    return loop(I, st, fr, c, args, dty, depth, bb, lambda s, call, e, a: [(s2, None, None) for s2, _ in call(s, [e])], lambda s, a: UNIT)
def fold(I, st, fr, c, args, atys, dty, depth, bb):
    return loop(I, st, fr, c, args, dty, depth, bb, lambda s, call, e, a: [(s2, v, None) for s2, v in call(s, [a, e])], lambda s, a: a, 2, args[1])
def quant(want):
    def m(I, st, fr, c, args, atys, dty, depth, bb):
        def body(s, call, e, a):
            o = []
            for s2, v in call(s, [e]):
                o += [(s3, None, const(want) if t == want else None) for s3, t in both(I, s2, v)]
            return o
        return loop(I, st, fr, c, args, dty, depth, bb, body, lambda s, a: const(not want))
    return m
def position(I, st, fr, c, args, atys, dty, depth, bb):
    def body(s, call, e, a):
        return [(s3, a + 1, _some(const(a)) if t else None) for s2, v in call(s, [e]) for s3, t in both(I, s2, v)]
    return loop(I, st, fr, c, args, dty, depth, bb, body, lambda s, a: NONE, 1, 0)
def find(I, st, fr, c, args, atys, dty, depth, bb):
    def body(s, call, e, a):
        I.fid += 1; r = (I.fid, 'el'); s.mem[r] = e
        return [(s3, None, _some(e) if t else None) for s2, v in call(s, [('ref', r, ())]) for s3, t in both(I, s2, v)]
    return loop(I, st, fr, c, args, dty, depth, bb, body, lambda s, a: NONE)
def find_map(I, st, fr, c, args, atys, dty, depth, bb):
    def body(s, call, e, a):
        return [(s3, None, _some(p) if n == 'Some' else None) for s2, v in call(s, [e]) for s3, n, p in fork2(s2, I.deref(s2, v), ('None', 'Some'))]
    return loop(I, st, fr, c, args, dty, depth, bb, body, lambda s, a: NONE)
def last(I, st, fr, c, args, atys, dty, depth, bb):
    return loop(I, st, fr, c, args, dty, depth, bb, lambda s, call, e, a: [(s, e, None)], lambda s, a: NONE if a is None else _some(a))
def try_for_each(I, st, fr, c, args, atys, dty, depth, bb):
    if not I.F.tys(dty).startswith('core::result::Result<'): return None
    def body(s, call, e, a):
        return [(s3, None, ('adt', R, 1, (p,)) if n == 'Err' else None) for s2, v in call(s, [e]) for s3, n, p in fork2(s2, I.deref(s2, v), ('Ok', 'Err'))]
    return loop(I, st, fr, c, args, dty, depth, bb, body, lambda s, a: ('adt', R, 0, (UNIT,)))
def try_fold(I, st, fr, c, args, atys, dty, depth, bb):
    t = I.F.tys(dty)
    k = 'Result' if t.startswith('core::result::Result<') else 'Option' if t.startswith('core::option::Option<') else None
    if k is None: return None
    names = ('Ok', 'Err') if k == 'Result' else ('None', 'Some'); stop = 'Err' if k == 'Result' else 'None'
    def body(s, call, e, a):
        return [(s3, p, None if n != stop else (('adt', R, 1, (p,)) if k == 'Result' else NONE)) for s2, v in call(s, [a, e]) for s3, n, p in fork2(s2, I.deref(s2, v), names)]
    return loop(I, st, fr, c, args, dty, depth, bb, body, lambda s, a: ('adt', R, 0, (a,)) if k == 'Result' else _some(a), 2, args[1])
_nth = BUILTIN['core::iter::traits::iterator::Iterator::nth']
def nth(I, st, fr, c, args, atys, dty, depth, bb):
    """`nth(n)` of an adapter: pull until the number of elements passed over is n."""
    r = _nth(I, st, fr, c, args, atys, dty, depth, bb)
    if r is not None or I.deref(st, args[0], 8)[0] != 'adt': return r
    n = I.deref(st, args[1])
    return loop(I, st, fr, c, args, dty, depth, bb, lambda s, call, e, a: [(s2, a + 1, _some(e) if t else None) for s2, t in both(I, s, I.binop(s, 'Eq', const(a), n))],
                lambda s, a: NONE, 1, 0)
BUILTIN['core::iter::traits::iterator::Iterator::nth'] = nth
CONSUMERS = {'for_each': for_each, 'fold': fold, 'any': quant(True), 'all': quant(False), 'position': position, 'find': find, 'find_map': find_map, 'last': last,
             'try_for_each': try_for_each, 'try_fold': try_fold}
for _n, _f in CONSUMERS.items():
    BUILTIN.setdefault('core::iter::traits::iterator::Iterator::' + _n, _f)
