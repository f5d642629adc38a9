"""Collections built inside a function from nothing: maps as the list of their entries, so that "is this key already there" is decided entry by entry."""
from interp import tok, const, UNIT, NONE, _some
from spec import Any, Err, Bad
E = 'std::collections::hash::map::Entry'
def decide(I, st, a, b):
    """[(state, a == b)]"""
    v = I.eqv(st, I.deref(st, a, 8), I.deref(st, b, 8))
    if v[0] == 'const': return [(st, v[1])]
    out = []
    for want in (True, False):
        s = st.copy()
        if I.truth(s, v) in (None, want) if hasattr(I, 'truth') else True: I.assume(s, v[1], want != (v[0] == 'not')); out.append((s, want))
    return out
def entries(I, st, v):
    tg = I.target(v); cur = I.read_path(st, *tg) if tg else None
    while cur is not None and cur[0] == 'ref': tg = (cur[1], cur[2]); cur = I.read_path(st, *tg)
    return (tg, cur) if cur is not None and cur[0] == 'vec' else (None, None)
def find(I, st, cur, k):
    """[(state, position of the entry with this key or None)]"""
    todo, out = [st], []
    for i, e in enumerate(cur[1]):
        nxt = []
        for s in todo:
            for s2, same in decide(I, s, e[1][0] if e[0] == 'tuple' else e, k): (out if same else nxt).append((s2, i) if same else s2)
        todo = nxt
    return out + [(s, None) for s in todo]
def ent(I, st, fr, c, args, atys, dty, depth, bb):
    tg, cur = entries(I, st, args[0])
    if not tg: return None
    k = I.snap(st, I.deref(st, args[1], 8)); out = []
    for s, i in find(I, st, cur, k):
        out.append((s, ('adt', E, 1 if i is None else 0, (('tuple', (const('entry'), ('ref', tg[0], tg[1]), k, const(i))),))))
    return out
def _slot(I, st, v):
    v = I.deref(st, v, 8)
    if v[0] == 'adt' and v[1] == E: v = v[3][0]
    return v[1][1:] if v[0] == 'tuple' and v[1] and v[1][0] == const('entry') else None
def vac_insert(I, st, fr, c, args, atys, dty, depth, bb):
    x = _slot(I, st, args[0])
    if not x: return None
    r, k, i = x; cur = I.read_path(st, r[1], r[2]); v = I.snap(st, I.deref(st, args[1], 8))
    if i[1] is None: I.write_path(st, r[1], r[2], ('vec', cur[1] + (('tuple', (k, v)),))); return [(st, UNIT)]
    old = cur[1][i[1]]
    I.write_path(st, r[1], r[2], ('vec', cur[1][:i[1]] + (('tuple', (old[1][0], v)),) + cur[1][i[1] + 1:])); return [(st, old[1][1])]
def occ(part, gone):
    def m(I, st, fr, c, args, atys, dty, depth, bb):
        x = _slot(I, st, args[0])
        if not x: return None
        r, k, i = x; cur = I.read_path(st, r[1], r[2])
        if i[1] is None: return [(st, k)] if part == 0 else None
        e = cur[1][i[1]]
        if gone: I.write_path(st, r[1], r[2], ('vec', cur[1][:i[1]] + cur[1][i[1] + 1:]))
        return [(st, e if part is None else e[1][part])]
    return m
def ins(I, st, fr, c, args, atys, dty, depth, bb):
    tg, cur = entries(I, st, args[0])
    if not tg: return None
    k = I.snap(st, I.deref(st, args[1], 8)); v = I.snap(st, I.deref(st, args[2], 8)) if len(args) > 2 else None; out = []
    for s, i in find(I, st, cur, k):
        c2 = I.read_path(s, *tg)
        if i is None:
            I.write_path(s, tg[0], tg[1], ('vec', c2[1] + ((k if v is None else ('tuple', (k, v))),))); out.append((s, NONE if v is not None else const(True)))
        elif v is None: out.append((s, const(False)))
        else:
            e = c2[1][i]; I.write_path(s, tg[0], tg[1], ('vec', c2[1][:i] + (('tuple', (e[1][0], v)),) + c2[1][i + 1:])); out.append((s, _some(e[1][1])))
    return out
def has(I, st, fr, c, args, atys, dty, depth, bb):
    tg, cur = entries(I, st, args[0])
    if not tg: return None
    return [(s, const(i is not None)) for s, i in find(I, st, cur, I.snap(st, I.deref(st, args[1], 8)))]
def get(I, st, fr, c, args, atys, dty, depth, bb):
    tg, cur = entries(I, st, args[0])
    if not tg: return None
    return [(s, NONE if i is None else _some(cur[1][i][1][1] if cur[1][i][0] == 'tuple' else cur[1][i])) for s, i in find(I, st, cur, I.snap(st, I.deref(st, args[1], 8)))]
H = 'std::collections::hash::'
MAPS = {H + "map::HashMap::<K, V, S, A>::entry": ent, H + "map::HashMap::<K, V, S>::entry": ent,
        H + "map::VacantEntry::<'a, K, V, A>::insert": vac_insert, H + "map::OccupiedEntry::<'a, K, V, A>::insert": vac_insert,
        H + "map::OccupiedEntry::<'a, K, V, A>::remove_entry": occ(None, True), H + "map::OccupiedEntry::<'a, K, V, A>::remove": occ(1, True), H + "map::OccupiedEntry::<'a, K, V, A>::get": occ(1, False), H + "map::OccupiedEntry::<'a, K, V, A>::key": occ(0, False),
        H + "map::VacantEntry::<'a, K, V, A>::key": occ(0, False), H + "map::VacantEntry::<'a, K, V, A>::into_key": occ(0, False)}
for a in ('<K, V, S, A>', '<K, V, S>'): MAPS.update({H + f"map::HashMap::{a}::insert": ins, H + f"map::HashMap::{a}::contains_key": has, H + f"map::HashMap::{a}::get": get})
for a in ('<T, S, A>', '<T, S>'): MAPS.update({H + f"set::HashSet::{a}::insert": ins, H + f"set::HashSet::{a}::contains": has})
def PARTITIONING(c, src=None):
    """Partitions are kept in order; a name given twice or a value given twice is an error."""
    names, vals = [], []
    for p in c.iter('iter') if src is None else src:
        if any([c.eq(n, p + '.0') for n in names]): return Err('DuplicateName')
        for v in c.iter(p + '.1'):
            if any([c.eq(x, v) for x, _ in vals]): return Err('DuplicateValue')
            vals.append((v, p + '.0'))
        names.append(p + '.0')
    m = ','.join(f"({v},{n})" for v, n in vals)
    return f"Ok(NamedPartitioning{{map=vec[{m}],partition_names=vec[{','.join(names)}]}})"
def PARTITIONING_READ(c):
    m, ps = 'map', []
    while True:
        e = c.nm(f"MapAccess::next_entry({m})")
        if not c.ok(e): return Err(e + '.Err.0')
        if not c.some(e + '.Ok.0'): break
        ps.append(e + '.Ok.0.Some.0'); m = e + '!'
    return PARTITIONING(c, ps)
# maps and sets that promise to refuse duplicates, by the type they belong to
GUARDED = ['types::config::params::Params', 'types::config::params::ParamsDiff', 'types::config::docs::ConfigDocs', 'types::config::docs::JobContextDocs', 'types::config::docs::TaskContextDocs', 'types::job::job_context::JobContext',
           'types::job::task_context::TaskContext', 'types::job::task_scratchpad::JobScratchpad', 'types::map::Map', 'types::map::MapDiff']
