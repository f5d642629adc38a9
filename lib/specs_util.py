"""Specifications of the index/segment helpers every position-taking operation goes through."""
from spec import Err, Any, Ret, Bad
def NEG_INDEX(c):
    """0..len counts from the front, negative counts from the back, anything outside is absent."""
    if c.lt('i', '0'): return 'num::checked_add_signed(len,i)'
    return 'Some(i)' if c.lt('i', 'len') else 'None'
def NEG_RANGE_BOUNDARY(c):
    if c.fact('lt(i,0)') is True: return NEG_INDEX(c)
    if c.eq('i', 'len'): return ['Some(len)', 'Some(i)']
    return NEG_INDEX(c)
def boundary(c, i):
    t = f"util::neg_range_boundary({i},len)"
    if not c.some(t): raise Ret('None')
    return t + '.Some.0'
def NEG_RANGE(c):
    a = boundary(c, 'start')
    if not c.some('end'): return f"Some((Included({a}),Unbounded))"
    b = boundary(c, 'end.Some.0')
    if c.lt(b, a): return 'None'
    return f"Some((Included({a}),Excluded({b})))"
def items(c): return list(c.iter('it'))
def pos(c, key):
    f = c.fact(key)
    if f is None: raise Bad(f"{key} is not consulted")
    return None if f == 'None' else f
def NEG_NTH(c):
    if not c.lt('i', '0'): return 'nth(it,i)'
    v = items(c); p = pos(c, f"neg_index(i,{len(v)})")
    return 'None' if p is None else f"Some({v[int(p)]})"
def NEG_VEC_KEEP(c):
    v = items(c); p = pos(c, f"neg_range(start,end,{len(v)})")
    if p is None: return 'None'
    a, b = map(int, p.split('..')); return f"Some(vec[{','.join(v[a:b])}])"
def SET_REL_SEGMENT(c):
    v = items(c); p = pos(c, f"neg_index(n,{len(v)})")
    if p is None: return Err('SegmentNotFound') if c.some('to') else f"Ok(vec[{','.join(v)}])"
    p = int(p); rel = c.choose('rel', ['Before', 'At', 'After'])
    if c.some('to'):
        x = 'to.Some.0'
        if rel == 'At': v[p] = x
        else: v.insert(p + (rel == 'After'), x)
    elif rel == 'At': del v[p]
    return f"Ok(vec[{','.join(v)}])"
FUNCTIONS = [   # (path, argument names, specification, normally-opaque helpers to look into)
    ('util::neg_index', ['i', 'len'], NEG_INDEX, ['util::neg_index']),
    ('util::neg_range_boundary', ['i', 'len'], NEG_RANGE_BOUNDARY, ['util::neg_range_boundary', 'util::neg_index']),
    ('util::neg_range', ['start', 'end', 'len'], NEG_RANGE, ['util::neg_range']),
    ('util::neg_nth', ['it', 'i'], NEG_NTH, ['util::neg_nth']),
    ('util::neg_vec_keep', ['it', 'start', 'end'], NEG_VEC_KEEP, ['util::neg_vec_keep']),
    ('util::set_rel_segment', ['it', 'n', 'rel', 'to'], SET_REL_SEGMENT, ['util::set_rel_segment']),
]
