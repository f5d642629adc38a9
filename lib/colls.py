"""Models of maps, sets and lists that are changed in place: a collection is what it was plus the ordered effects on it.

`C+{x}` x was added (`C+{k=v}` for maps, `C+[x]` for lists), `C-{x}` x was removed, `C~{k}` an empty entry for k was made if there was none.
Loops, `extend`, `retain(|x| !s.contains(x))` and `for x in s {c.remove(x)}` all come out as the same effects.
"""
import re
from interp import tok, const, UNIT, drain, NONE, _some
def kind(c):
    p = c['path'] + ' ' + c['u']
    return 'map' if 'HashMap' in p or 'BTreeMap' in p or 'serde_json::map::Map' in p else 'set' if 'HashSet' in p or 'BTreeSet' in p else 'list' if '::Vec' in p else None
def base(I, name):
    return I.__dict__.setdefault('colls', {}).get(name, name)
def mutate(I, st, tg, effect):
    cur = I.read_path(st, *tg)
    if cur[0] != 'tok': return False
    n = I.nm(cur[1] + effect); I.__dict__.setdefault('colls', {})[n] = base(I, cur[1])
    I.write_path(st, tg[0], tg[1], tok(n)); return True
def rd(I, st, v): return I.render(st, I.deref(st, v, 8))
def item(I, st, k, x):
    if k == 'list': return f"+[{rd(I, st, x)}]"
    if k == 'set': return f"+{{{rd(I, st, x)}}}"
    x = I.deref(st, x)
    if x[0] == 'tuple': return f"+{{{rd(I, st, x[1][0])}={rd(I, st, x[1][1])}}}"
    n = I.render(st, x); return f"+{{{n}.0={n}.1}}"
def each(I, st, fr, v, c, dty, depth, bb):
    """(state, elements) for every length of an iterable."""
    v = I.deref(st, v, 8)
    if v[0] in ('vec', 'array'): return [(st, list(v[1]))]
    nk = c.get('next') if c else None
    if v[0] == 'tok': v = ('iter', v[1], 0); nk = None
    if v[0] != 'iter' and nk is None: return None
    I.fid += 1; root = (I.fid, 'it'); st.mem[root] = v
    return [(s, list(r[1])) for s, r in drain(I, st, fr, root, nk if v[0] != 'iter' else None, [], (c or {}).get('next_ty', dty), dty, depth, bb) if r[0] == 'vec' or s.cut]
def _tgt(I, st, c, args):
    k = kind(c); tg = I.target(args[0]) if args else None
    if k is None or tg is None: return None, None
    cur = I.read_path(st, *tg)
    while cur[0] == 'ref': tg = (cur[1], cur[2]); cur = I.read_path(st, *tg)
    return (k, tg) if cur[0] == 'tok' else (None, None)
def extend(I, st, fr, c, args, atys, dty, depth, bb):
    k, tg = _tgt(I, st, c, args)
    if not k: return None
    r = each(I, st, fr, args[1], c, dty, depth, bb)
    if r is None: return None
    for s, xs in r:
        for x in xs: mutate(I, s, tg, item(I, s, k, x))
    return [(s, UNIT) for s, _ in r]
def insert(I, st, fr, c, args, atys, dty, depth, bb):
    k, tg = _tgt(I, st, c, args)
    if k not in ('map', 'set'): return None
    n = I.read_path(st, *tg)[1]; key = rd(I, st, args[1])
    mutate(I, st, tg, f"+{{{key}}}" if k == 'set' else f"+{{{key}={rd(I, st, args[2])}}}")
    return [(st, tok(I.nm(f"inserted({n},{key})")))]
def push(I, st, fr, c, args, atys, dty, depth, bb):
    k, tg = _tgt(I, st, c, args)
    if k != 'list': return None
    mutate(I, st, tg, f"+[{rd(I, st, args[1])}]"); return [(st, UNIT)]
def remove(I, st, fr, c, args, atys, dty, depth, bb):
    k, tg = _tgt(I, st, c, args)
    if k not in ('map', 'set'): return None
    n = I.read_path(st, *tg)[1]; key = rd(I, st, args[1])
    mutate(I, st, tg, f"-{{{key}}}"); return [(st, tok(I.nm(f"removed({n},{key})")))]
def retain(I, st, fr, c, args, atys, dty, depth, bb):
    k, tg = _tgt(I, st, c, args); f = I.deref(st, args[1])
    if k not in ('map', 'set') or f[0] != 'clo': return None
    cur = I.read_path(st, *tg); el = tok(I.nm(f"each({cur[1]})"))
    a = [tok(el[1] + '.0'), tok(el[1] + '.1')] if k == 'map' else [el]
    key = a[0][1]
    outs = list(I.call_closure(st.copy(), fr, f, a, depth))
    # the closure keeps exactly the elements that are in (or not in) one set
    got = set(); 
    for s, v in outs:
        v = I.deref(s, v); new = {x: y for x, y in s.facts.items() if x not in st.facts and x.endswith(f",{key})")}
        if v[0] == 'const': val = v[1]
        elif v[0] == 'not': got.add((v[1], False)); continue
        elif v[0] == 'tok': got.add((v[1], True)); continue
        else: return None
        if len(new) != 1: return None
        (x, y), = new.items(); got.add((x, val == (y is True or y == 'Some')))
    if len(got) != 1: return None
    (t, keep), = got
    for p in ('HashSet::contains(', 'is(HashMap::get(', 'HashMap::contains_key('):
        if t.startswith(p) and f",{key})" in t:
            other = t[len(p):t.index(f",{key})")]
            if keep: mutate(I, st, tg, f"∩{other}"); return [(st, UNIT)]
            r = each(I, st, fr, tok(other), None, dty, depth, bb)
            for s, xs in r:
                for x in xs: mutate(I, s, tg, f"-{{{rd(I, s, x)}}}")
            return [(s, UNIT) for s, _ in r]
    return None
def sub(I, tg, cur, key): return ('ref', ('T', I.nm(f"{base(I, cur[1])}[{key}]")), ())
def get_mut(I, st, fr, c, args, atys, dty, depth, bb):
    k, tg = _tgt(I, st, c, args)
    if k != 'map': return None
    cur = I.read_path(st, *tg); key = rd(I, st, args[1]); t = I.nm(f"HashMap::get({cur[1]},{key})"); out = []
    for n in ('None', 'Some'):
        if st.facts.get(t) in (None, n):
            s = st.copy(); s.facts[t] = n
            out.append((s, NONE if n == 'None' else _some(sub(I, tg, cur, key))))
    return out
def entry(I, st, fr, c, args, atys, dty, depth, bb):
    k, tg = _tgt(I, st, c, args)
    if k != 'map': return None
    return [(st, ('tuple', (const('entry'), ('ref', tg[0], tg[1]), I.snap(st, I.deref(st, args[1], 8)))))]
def or_default(I, st, fr, c, args, atys, dty, depth, bb):
    e = I.deref(st, args[0])
    if e[0] != 'tuple' or e[1][0] != const('entry'): return None
    _, r, key = e[1]; tg = I.target(r); cur = I.read_path(st, *tg); ks = I.render(st, key)
    ref = sub(I, tg, cur, ks)
    mutate(I, st, tg, f"~{{{ks}}}")
    return [(st, ref)]
COLLS = {'extend': extend, 'insert': insert, 'push': push, 'remove': remove, 'retain': retain, 'get_mut': get_mut, 'entry': entry, 'or_default': or_default, 'or_insert_with': or_default, 'or_insert': or_default,
         'extend_from_slice': extend}

# ------------------------------------------------------------------ owned lists that are taken apart: what is left starts later
def _at(I, st, v):
    """(name, position of the first remaining element) of a list nobody has changed otherwise."""
    v = I.deref(st, v, 8)
    if v[0] == 'tok': return v[1], 0
    if v[0] == 'iter' and isinstance(v[1], str): return v[1], v[2]
    return None, None
def take_first(I, st, fr, c, args, atys, dty, depth, bb):
    """Vec::remove(0) / swap_remove(0): the first element; the rest stays (in an order nobody depends on)."""
    tg = I.target(args[0]); n, i = _at(I, st, args[0])
    if tg is None or n is None or I.deref(st, args[1]) != const(0): return remove(I, st, fr, c, args, atys, dty, depth, bb)
    k = I.nm(f"has({n},{i})")
    if st.facts.get(k) is False: return []          # panics
    st.facts[k] = True; I.write_path(st, tg[0], tg[1], ('iter', n, i + 1))
    return [(st, tok(I.nm(f"{n}[{i}]")))]
def is_empty(I, st, fr, c, args, atys, dty, depth, bb):
    n, i = _at(I, st, args[0])
    if n is None: return None
    k = I.nm(f"has({n},{i})"); out = []
    for t in (True, False):
        if st.facts.get(k) in (None, t): s = st.copy(); s.facts[k] = t; out.append((s, const(not t)))
    return out
def map_new(I, st, fr, c, args, atys, dty, depth, bb): return [(st, tok(I.nm(f"new{bb['t'][3][0]}")))]
def size(I, st, fr, c, args, atys, dty, depth, bb):
    """How many elements a list has: one path per number."""
    n, i = _at(I, st, args[0])
    if n is None: return None
    out = []; s = st
    for k in range(i, i + I.maxlen + 2):
        f = I.nm(f"has({n},{k})")
        if s.facts.get(f) in (None, False): e = s.copy(); e.facts[f] = False; out.append((e, const(k - i)))
        if s.facts.get(f) is False: break
        s = s.copy(); s.facts[f] = True
    return out
OWNED = {**COLLS, 'swap_remove': take_first, 'remove': take_first, 'is_empty': is_empty, 'len': size}
for _k in ('map::HashMap::<K, V>', 'map::HashMap::<K, V, S>', 'map::HashMap::<K, V, S, A>'):
    for _n in ('new', 'with_capacity'): OWNED[f"std::collections::hash::{_k}::{_n}"] = map_new

for _n in ('new', 'with_capacity'): OWNED[f"serde_json::map::Map::<alloc::string::String, serde_json::value::Value>::{_n}"] = map_new
def to_array(I, st, fr, c, args, atys, dty, depth, bb):
    """<[T; N]>::try_from(list): the elements when there are exactly N, otherwise the list back."""
    m = re.match(r'core::result::Result<\[.*; (\d+)\], alloc::vec::Vec', I.F.tys(dty) if dty is not None else '')
    n, i = _at(I, st, args[0])
    if not m or n is None: return None
    k = int(m.group(1)); out = []
    for s, ln in size(I, st, fr, c, args, atys, dty, depth, bb):
        R = 'core::result::Result'
        out.append((s, ('adt', R, 0, (('array', tuple(tok(I.nm(f"{n}[{j}]")) for j in range(i, i + k))),)) if ln == const(k) else ('adt', R, 1, (I.deref(s, args[0], 8),))))
    return out
OWNED.update({'try_from': to_array, 'alloc::vec::Vec::<T, A>::len': size, 'alloc::vec::Vec::<T, A>::is_empty': is_empty, 'core::slice::<impl [T]>::len': size, 'core::slice::<impl [T]>::is_empty': is_empty})
