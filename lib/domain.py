"""What counts as a sub-evaluation (event) and what is kept opaque, for this repository."""
import re
from interp import short, BUILTIN, tok, const, drain
import iters   # noqa: F401 (registers the iterator consumers)

EVENTS = {'Condition::satisfied_by', 'Mapper::apply', 'Rule::apply', 'Rules::apply', 'StringSource::get', 'StringModification::apply', 'StringMatcher::satisfied_by',
          'CharMatcher::satisfied_by', 'StringLocation::satisfied_by', 'CommonCallArgsSource::build', 'UrlPart::set', 'Cache::read', 'Cache::write', 'TaskStateView::http_client',
          'CommandConfig::output', 'RequestConfig::response', 'FlagRef::get', 'VarRef::get', 'FlagType::get', 'VarType::get'}
FILTERS = {'ConditionErrorFilter::matches'}
OPAQUE_LOCAL = {'UrlPart::get', 'RegexWrapper::get', 'util::neg_index', 'util::neg_range_boundary', 'util::neg_range', 'util::neg_nth', 'util::neg_vec_keep',
                'string_literal_prefix::string_literal_prefix', 'unescape::unescape_text', 'get_attribute::get_attribute_value', 'Base64Config::build', 'UrlEncodeAlphabet::get'}
# the URL wrapper's own methods (each has its own specification); helpers added later are looked into
KNOWN_URL = {'BetterUrl::' + x for x in ('assert_suitability', 'cmp', 'domain', 'domain_middle', 'domain_suffix', 'eq', 'fmt', 'fqdn_period', 'from', 'hash', 'not_domain_suffix', 'partial_cmp',
    'path_segments', 'path_segments_mut', 'query_pairs_mut', 'reg_domain', 'set_domain', 'set_domain_host', 'set_domain_middle', 'set_domain_suffix', 'set_fqdn', 'set_fragment', 'set_host', 'set_ip_host',
    'set_not_domain_suffix', 'set_password', 'set_path', 'set_port', 'set_query', 'set_reg_domain', 'set_scheme', 'set_subdomain', 'set_username', 'subdomain')}
def label(c):
    if c.get('crate') is None: return None
    return short(c['path'])
def events(extra=(), drop=()):
    ev = (EVENTS | FILTERS | set(extra)) - set(drop)
    def f(c):
        l = label(c)
        if l in ev and c.get('crate', '').startswith('url_cleaner'): return l
        if c['path'] == 'std::thread::functions::sleep' or c['u'] == 'std::thread::sleep' or c['path'].startswith('std::thread') and c['name'] == 'sleep': return 'sleep'
        return None
    return f
def opaque(extra=()):
    ex = OPAQUE_LOCAL | set(extra)
    def f(c):
        if not c.get('crate', '').startswith('url_cleaner'): return False
        l = label(c)
        return l in ex or l in KNOWN_URL
    return f

def _t(name):
    def m(I, st, fr, c, args, atys, dty, depth, bb):
        return [(st, tok(I.nm(f"is({name}({','.join(I.render(st, a) for a in args)}),Some)")))]
    return m
def _empty(I, st, fr, c, args, atys, dty, depth, bb):
    v = I.deref(st, args[0])
    if v[0] in ('vec', 'array') or v[0] == 'const' and isinstance(v[1], str): return [(st, const(not v[1]))]
    if v[0] == 'cat' and any(isinstance(x, str) and x for x in v[1]): return [(st, const(False))]
    return [(st, I.binop(st, 'Eq', tok(I.nm('len(' + I.render(st, args[0]) + ')')), const(0)))]
def _len(I, st, fr, c, args, atys, dty, depth, bb):
    v = I.deref(st, args[0])
    if v[0] in ('vec', 'array'): return [(st, const(len(v[1])))]
    if v[0] == 'const' and isinstance(v[1], str): return [(st, const(len(v[1].encode())))]
    return [(st, tok(I.nm('len(' + I.render(st, args[0]) + ')')))]
def canon(name, boolean=False):
    def m(I, st, fr, c, args, atys, dty, depth, bb):
        return [(st, tok(I.nm(f"{name}({','.join(I.render(st, a) for a in args)})")))]
    return m
MODELS = {
    'core::str::<impl str>::starts_with': _t('strip_prefix'), 'core::str::<impl str>::ends_with': _t('strip_suffix'), 'core::str::<impl str>::contains': _t('find'),
    'core::str::<impl str>::strip_prefix': canon('strip_prefix'), 'core::str::<impl str>::strip_suffix': canon('strip_suffix'), 'core::str::<impl str>::find': canon('find'),
    'core::str::<impl str>::is_empty': _empty, 'alloc::string::String::is_empty': _empty, 'core::str::<impl str>::len': _len, 'alloc::string::String::len': _len,
    'alloc::vec::Vec::<T, A>::len': _len, 'alloc::vec::Vec::<T, A>::is_empty': _empty, 'core::slice::<impl [T]>::len': _len, 'core::slice::<impl [T]>::is_empty': _empty,
}
# lists given as a token: how many elements there are is decided as far as it is asked
def tlist(I, st, v):
    v = I.deref(st, v, 8)
    if v[0] == 'tok': return v[1], 0
    if v[0] == 'iter' and isinstance(v[1], str): return v[1], v[2]
    return None, None
def ask(I, st, n, i):
    """[(state, whether the list has an element i)]"""
    f = I.nm(f"has({n},{i})")
    if i >= I.maxlen and st.facts.get(f) is None: st.facts[f] = False
    out = []
    for val in (True, False):
        if st.facts.get(f) in (None, val):
            s = st.copy(); s.facts[f] = val
            for j in range(i):
                if val: s.facts.setdefault(I.nm(f"has({n},{j})"), True)
            if all(s.facts.get(I.nm(f"has({n},{j})")) is not False for j in range(i)) or not val: out.append((s, val))
    return out
def sized(I, st, n, i=0):
    """[(state, number of elements from i on)]"""
    out = []; work = [(st, i)]
    while work:
        s, k = work.pop()
        for s2, h in ask(I, s, n, k): (work if h else out).append((s2, k + 1) if h else (s2, k - i))
    return sorted(out, key=lambda x: x[1])
def _llen(I, st, fr, c, args, *a):
    v = I.deref(st, args[0], 8); n, i = tlist(I, st, v)
    if n is None: return _len(I, st, fr, c, args, *a)
    out = [(s, const(k)) for s, k in sized(I, st, n, i)]
    if getattr(I, 'widen', False) and i == 0 and all(st.facts.get(I.nm(f"has({n},{j})")) is not False for j in range(I.maxlen + 1)):
        s = st.copy(); ln = I.nm(f"len({n})")                    # ...or more than are told apart
        for j in range(I.maxlen + 1): s.facts[I.nm(f"has({n},{j})")] = True
        I.narrow(s, ln, I.maxlen + 1, None); out.append((s, tok(ln)))
    return out
def _lempty(I, st, fr, c, args, *a):
    v = I.deref(st, args[0], 8); n, i = tlist(I, st, v)
    return _empty(I, st, fr, c, args, *a) if n is None else [(s, const(not h)) for s, h in ask(I, st, n, i)]
def _lget(I, st, fr, c, args, atys, dty, depth, bb):
    n, i = tlist(I, st, args[0]); k = const(0) if c['name'].startswith('first') else I.deref(st, args[1])
    if n is None or k[0] != 'const' or not isinstance(k[1], int): return None
    el = tok(I.nm(f"{n}[{i + k[1]}]")); O = 'core::option::Option'
    if c['name'].startswith('index'): return [(s, el) for s, h in ask(I, st, n, i + k[1]) if h]
    return [(s, ('adt', O, 1, (el,)) if h else ('adt', O, 0, ())) for s, h in ask(I, st, n, i + k[1])]
def _llast(I, st, fr, c, args, atys, dty, depth, bb):
    n, i = tlist(I, st, args[0]); O = 'core::option::Option'
    if n is None: return None
    return [(s, ('adt', O, 1, (tok(I.nm(f"{n}[{i + k - 1}]")),)) if k else ('adt', O, 0, ())) for s, k in sized(I, st, n, i)]
def _lrev(I, st, fr, c, args, atys, dty, depth, bb):
    n, i = tlist(I, st, args[0]); T = I.F.ty(I.F.peel(atys[0])) if atys and atys[0] is not None else {}
    if n is None or not re.search(r'(slice::iter|vec::into_iter)', str(T.get('adt'))): return None
    return [(s, ('iter', tuple(tok(I.nm(f"{n}[{j}]")) for j in reversed(range(i, i + k))), 0)) for s, k in sized(I, st, n, i)]
def _lsplit(I, st, fr, c, args, atys, dty, depth, bb):
    n, i = tlist(I, st, args[0]); O = 'core::option::Option'
    if n is None: return None
    return [(s, ('adt', O, 1, (('tuple', (tok(I.nm(f"{n}[{i}]")), ('iter', n, i + 1))),)) if h else ('adt', O, 0, ())) for s, h in ask(I, st, n, i)]
def first_of(*ms):
    def m(*a):
        for x in ms:
            r = x(*a)
            if r is not None: return r
        return None
    return m
_S = 'core::slice::<impl [T]>::'
MODELS.update({'alloc::vec::Vec::<T, A>::len': _llen, 'alloc::vec::Vec::<T, A>::is_empty': _lempty, _S + 'len': _llen, _S + 'is_empty': _lempty,
               _S + 'first': _lget, _S + 'last': _llast, _S + 'split_first': _lsplit, _S + 'get': first_of(_lget, BUILTIN[_S + 'get']),
               'core::iter::traits::iterator::Iterator::rev': first_of(_lrev, BUILTIN['core::iter::traits::iterator::Iterator::rev'])})
def _const(v): return lambda I, st, fr, c, args, atys, dty, depth, bb: [(st, const(v))]
# form_urlencoded::Serializer: the list of pairs appended so far
def _ser_new(I, st, fr, c, args, atys, dty, depth, bb): return [(st, ('vec', ()))]
def _ser_append(I, st, fr, c, args, atys, dty, depth, bb):
    tg = I.target(args[0]); v = I.read_path(st, *tg)
    if v[0] != 'vec': return None
    I.write_path(st, tg[0], tg[1], ('vec', v[1] + (('tuple', (I.snap(st, I.deref(st, args[1])), I.snap(st, I.deref(st, args[2])))),))); return [(st, args[0])]
def _ser_extend(I, st, fr, c, args, atys, dty, depth, bb):
    tg = I.target(args[0]); v = I.read_path(st, *tg)
    if v[0] != 'vec': return None
    it = I.deref(st, args[1])
    if it[0] in ('vec', 'array'): it = ('iter', it[1], 0)
    if c.get('next') is None and it[0] != 'iter': return None
    I.fid += 1; root = (I.fid, 'it'); st.mem[root] = it
    out = []
    for s, r in drain(I, st, fr, root, c.get('next'), 'Vec', dty, dty, depth, bb):
        if r[0] == 'vec': I.write_path(s, tg[0], tg[1], ('vec', v[1] + tuple(I.deref(s, x) for x in r[1])))
        out.append((s, args[0]))
    return out
def _ser_finish(I, st, fr, c, args, atys, dty, depth, bb):
    v = I.deref(st, args[0])
    if v[0] != 'vec': return None
    n = tok(I.nm('query' + I.render(st, v)[3:]))
    I.assume(st, I.nm(f"eq(0,len({n[1]}))"), not v[1])
    return [(st, n)]
def _parse(I, st, fr, c, args, atys, dty, depth, bb): return [(st, tok(I.nm(f"Url::parse({I.render(st, args[0])})")))]
MODELS['<url::Url as core::str::traits::FromStr>::from_str'] = _parse
def _same(I, st, fr, c, args, atys, dty, depth, bb): return [(st, args[0])]
MODELS['url::Url::as_str'] = _same
def _own(I, st, fr, c, args, atys, dty, depth, bb): return [(st, I.snap(st, I.deref(st, args[0], 8)))]
for _o in ('alloc::rcs::arc::Arc<str>', 'alloc::sync::Arc<str>', 'alloc::rc::Rc<str>', 'alloc::rcs::rc::Rc<str>', 'alloc::boxed::Box<str>'):
    for _f in ('&str', 'alloc::string::String', '&mut str', 'alloc::borrow::Cow<\'_, str>'): MODELS[f"<{_o} as core::convert::From<{_f}>>::from"] = _own
P = "form_urlencoded::Serializer::<'a, T>::"
MODELS.update({P + 'new': _ser_new, P + 'append_pair': _ser_append, P + 'extend_pairs': _ser_extend, P + 'finish': _ser_finish,
               'alloc::string::String::new': _const(''), '<alloc::string::String as core::default::Default>::default': _const(''), 'alloc::string::String::with_capacity': _const('')})
for k in ('std::collections::hash::map::HashMap::<K, V, S, A>::contains_key', 'std::collections::hash::map::HashMap::<K, V, S>::contains_key'): MODELS[k] = _t('HashMap::get')

def _neg(extra):
    """neg_index / neg_range_boundary of a list of known length: absent, or one of its positions (checked on their own in the utility specs)."""
    def m(I, st, fr, c, args, atys, dty, depth, bb):
        n = I.deref(st, args[1])
        if n[0] != 'const' or I.opaque(c) is False: return None
        name = I.nm(f"{c['name']}({I.render(st, args[0])},{n[1]})"); known = st.facts.get(name); out = []
        for j in [None] + list(range(n[1] + extra)):
            f = 'None' if j is None else str(j)
            if known not in (None, f): continue
            s = st.copy(); s.facts[name] = f
            out.append((s, ('adt', 'core::option::Option', 0, ()) if j is None else ('adt', 'core::option::Option', 1, (const(j),))))
        return out
    return m
def _neg_range(I, st, fr, c, args, atys, dty, depth, bb):
    n = I.deref(st, args[2])
    if n[0] != 'const' or I.opaque(c) is False: return None
    name = I.nm(f"neg_range({I.render(st, args[0])},{I.render(st, args[1])},{n[1]})"); known = st.facts.get(name); out = []
    B = 'core::ops::range::Bound'
    T = I.F.adts.get(B)
    if not T: return None
    inc, exc = [next(i for i, v in enumerate(T['variants']) if v['n'] == x) for x in ('Included', 'Excluded')]
    for r in [None] + [(a, b) for a in range(n[1] + 1) for b in range(a, n[1] + 1)]:
        f = 'None' if r is None else f"{r[0]}..{r[1]}"
        if known not in (None, f): continue
        s = st.copy(); s.facts[name] = f
        v = None if r is None else ('tuple', (('adt', B, inc, (const(r[0]),)), ('adt', B, exc, (const(r[1]),))))
        out.append((s, ('adt', 'core::option::Option', 0, ()) if r is None else ('adt', 'core::option::Option', 1, (v,))))
    return out
MODELS['neg_range'] = _neg_range
MODELS['neg_index'] = _neg(0); MODELS['neg_range_boundary'] = _neg(1)

# -------------------------------------------------------------------- strings: one canonical term per value
def split_args(s):
    """Top-level comma-separated parts of a rendered argument list."""
    out = []; d = 0; q = None; cur = ''; esc = False
    for ch in s:
        if q:
            cur += ch
            if esc: esc = False
            elif ch == '\\': esc = True
            elif ch == q: q = None
            continue
        if ch in "'" and (cur == '' or cur[-1] in '([{,='): q = ch
        if ch in '([{': d += 1
        elif ch in ')]}': d -= 1
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur or out: out.append(cur)
    return out
def parts(I, st, v):
    v = I.deref(st, v)
    if v[0] == 'const' and isinstance(v[1], str): return [v[1]] if v[1] else []
    if v[0] == 'cat': return list(v[1])
    r = I.snap(st, v)
    if r[0] == 'const' and isinstance(r[1], str): return [r[1]] if r[1] else []
    if r[0] == 'cat': return list(r[1])
    return [r]
def cat(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
        else: out.append(p)
    if not out: return const('')
    if len(out) == 1: return const(out[0]) if isinstance(out[0], str) else out[0]
    return ('cat', tuple(out))
def _chr(I, st, v, ty=None):
    v = I.deref(st, v)
    return const(chr(v[1])) if v[0] == 'const' and isinstance(v[1], int) and not isinstance(v[1], bool) else v
def _push_str(I, st, fr, c, args, atys, dty, depth, bb):
    tg = I.target(args[0])
    if tg is None: return None
    cur = I.deref(st, args[0]); x = _chr(I, st, args[1])
    I.write_path(st, tg[0], tg[1], cat(parts(I, st, cur) + parts(I, st, x))); return [(st, const(None) if False else ('tuple', ()))]
def _add_str(I, st, fr, c, args, atys, dty, depth, bb):
    t = I.F.ty(dty) if dty is not None else {}
    if t.get('adt') != 'alloc::string::String': return None
    return [(st, cat(parts(I, st, args[0]) + parts(I, st, args[1])))]
def _concat(I, st, fr, c, args, atys, dty, depth, bb):
    v = I.deref(st, args[0])
    if v[0] not in ('vec', 'array'): return None
    return [(st, cat([p for x in v[1] for p in parts(I, st, x)]))]
def _join(I, st, fr, c, args, atys, dty, depth, bb):
    """Texts joined by a separator are the texts with the separator between them, whoever puts it there."""
    v = I.deref(st, args[0])
    if v[0] not in ('vec', 'array'): return None
    t = I.F.ty(dty) if dty is not None else {}
    if t.get('adt') != 'alloc::string::String': return None
    sep = parts(I, st, args[1])
    return [(st, cat([p for i, x in enumerate(v[1]) for p in (sep if i else []) + parts(I, st, x)]))]
def _insert_str(I, st, fr, c, args, atys, dty, depth, bb):
    i = I.deref(st, args[1]); tg = I.target(args[0])
    if i != const(0) or tg is None: return None
    I.write_path(st, tg[0], tg[1], cat(parts(I, st, _chr(I, st, args[2])) + parts(I, st, args[0]))); return [(st, ('tuple', ()))]
def _clone_from(I, st, fr, c, args, atys, dty, depth, bb):
    tg = I.target(args[0])
    if tg is None: return None
    I.write_path(st, tg[0], tg[1], I.snap(st, I.deref(st, args[1], 8))); return [(st, ('tuple', ()))]
def _to_mut(I, st, fr, c, args, atys, dty, depth, bb):
    """Cow::to_mut: what was borrowed becomes an own copy, in place; an owned value is handed out as it is."""
    tg = I.target(args[0]); v = I.deref(st, args[0])
    if tg is None or v[0] != 'adt' or v[1] != 'alloc::borrow::Cow': return [(st, args[0])]
    I.write_path(st, tg[0], tg[1], I.snap(st, I.deref(st, v[3][0]))); return [(st, args[0])]
def _clone_into(I, st, fr, c, args, atys, dty, depth, bb): return _clone_from(I, st, fr, c, [args[1], args[0]], atys, dty, depth, bb)
def _stripped(I, st, s, n, which):
    """`s` without a prefix/suffix whose presence this path has established and whose length is the term `n`."""
    m = n[4:-1] if n.startswith('len(') else None
    if m is None: return None
    t = f"strip_{which}({I.render(st, s)},{m})"
    return tok(t + '.Some.0') if st.facts.get(t) == 'Some' or st.facts.get(f"is({t},Some)") is True else None
def _range_of(I, st, v):
    v = I.deref(st, v)
    if v[0] != 'adt': return None
    k = v[1].split('::')[-1]
    return k, [I.render(st, x) for x in v[3]]
def _drain_str(I, st, fr, c, args, atys, dty, depth, bb):
    tg = I.target(args[0]); r = _range_of(I, st, args[1])
    if tg is None or r is None: return None
    s = I.deref(st, args[0])
    if r[0] == 'RangeTo': n = _stripped(I, st, s, r[1][0], 'prefix')
    elif r[0] == 'Range' and r[1][0] == '0': n = _stripped(I, st, s, r[1][1], 'prefix')
    else: n = None
    if n is None: return None
    if c['name'] == 'replace_range':
        n = cat(parts(I, st, args[2]) + [n])
    I.write_path(st, tg[0], tg[1], n); return [(st, tok('drained') if c['name'] == 'drain' else ('tuple', ()))]
def _truncate(I, st, fr, c, args, atys, dty, depth, bb):
    tg = I.target(args[0]); s = I.deref(st, args[0]); n = I.render(st, I.deref(st, args[1])); rs = I.render(st, s)
    p = f"Sub(len({rs}),"
    if not n.startswith(p): return None
    v = _stripped(I, st, s, n[len(p):-1], 'suffix')
    if v is None: return None
    I.write_path(st, tg[0], tg[1], v); return [(st, ('tuple', ()))]
def _str_index(I, st, fr, c, args, atys, dty, depth, bb):
    r = _range_of(I, st, args[1])
    if r is None: return None
    s = I.deref(st, args[0]); n = None; rs = I.render(st, s)
    if r[0] == 'RangeFull': return [(st, args[0])]
    if r[0] == 'RangeFrom': n = _stripped(I, st, s, r[1][0], 'prefix')
    elif r[0] == 'RangeTo' and r[1][0].startswith(f"Sub(len({rs}),"): n = _stripped(I, st, s, r[1][0][len(f"Sub(len({rs}),"):-1], 'suffix')
    return None if n is None else [(st, n)]
def _char_pat(base):
    """str methods taking a pattern: a char and the one-character string are the same pattern."""
    def m(I, st, fr, c, args, atys, dty, depth, bb):
        if len(args) < 2: return None
        i = 2 if c['name'] in ('splitn', 'rsplitn') else 1
        if i >= len(args): return None
        x = _chr(I, st, args[i])
        if x[0] != 'const' or not isinstance(x[1], str) or I.deref(st, args[i]) == x: return base(I, st, fr, c, args, atys, dty, depth, bb) if base else None
        a = list(args); a[i] = x
        if base: return base(I, st, fr, c, a, atys, dty, depth, bb)
        return I.opaque_call(st, c, a, atys, dty, bb)
    return m
for k in ('split', 'rsplit', 'splitn', 'rsplitn', 'split_once', 'rsplit_once', 'split_terminator', 'split_inclusive', 'trim_start_matches', 'trim_end_matches', 'trim_matches', 'matches', 'rfind'):
    MODELS.setdefault(f"core::str::<impl str>::{k}", _char_pat(None))
def _any_char(op, base):
    """starts_with/ends_with of one of several characters: asked one character at a time."""
    def m(I, st, fr, c, args, atys, dty, depth, bb):
        p = I.deref(st, args[1], 8)
        if p[0] == 'clo' and op == 'strip_prefix':
            n = I.nm(f"str::chars({I.render(st, args[0])})"); k = f"has({n},0)"; out = []
            if st.facts.get(k) in (None, False): s = st.copy(); s.facts[k] = False; out.append((s, const(False)))
            if st.facts.get(k) in (None, True): s = st.copy(); s.facts[k] = True; out += I.call_value(s, fr, p, [tok(n + '[0]')], [None], None, depth, bb)
            return out
        if p[0] not in ('array', 'vec') or not p[1]: return base(I, st, fr, c, args, atys, dty, depth, bb)
        xs = [I.deref(st, x) for x in p[1]]
        if not all(x[0] == 'const' for x in xs): return base(I, st, fr, c, args, atys, dty, depth, bb)
        out = []; work = [st]
        for x in xs:
            nxt = []
            for s in work:
                k = I.nm(f"is({op}({I.render(s, args[0])},{I.render(s, _chr(I, s, x))}),Some)")
                f = s.facts.get(k)
                if f is None and s.facts.get(k[3:-6]) in ('Some', 'None'): f = s.facts[k[3:-6]] == 'Some'
                for t in (True, False):
                    if f in (None, t): s2 = s.copy(); s2.facts[k] = t; (nxt if not t else out).append(s2 if not t else (s2, const(True)))
            work = nxt
        return out + [(s, const(False)) for s in work]
    return m
for k, _o in (('starts_with', 'strip_prefix'), ('ends_with', 'strip_suffix')):
    MODELS[f"core::str::<impl str>::{k}"] = _any_char(_o, MODELS[f"core::str::<impl str>::{k}"])
for k in ('starts_with', 'ends_with', 'contains', 'strip_prefix', 'strip_suffix', 'find'):
    MODELS[f"core::str::<impl str>::{k}"] = _char_pat(MODELS[f"core::str::<impl str>::{k}"])
MODELS.update({
    "alloc::borrow::Cow::<'_, B>::to_mut": _to_mut,
    'alloc::string::String::push_str': _push_str, 'alloc::string::String::push': _push_str, 'core::ops::arith::Add::add': _add_str, 'alloc::slice::<impl [T]>::concat': _concat, 'alloc::slice::<impl [T]>::join': _join,
    'core::ops::arith::AddAssign::add_assign': lambda I, st, fr, c, args, atys, dty, *a: _push_str(I, st, fr, c, args, atys, dty, *a) if 'String' in c['path'] else None,
    'alloc::string::String::insert_str': _insert_str, 'alloc::string::String::insert': _insert_str, 'core::clone::Clone::clone_from': _clone_from, 'alloc::borrow::ToOwned::clone_into': _clone_into,
    'alloc::string::String::drain': _drain_str, 'alloc::string::String::replace_range': _drain_str, 'alloc::string::String::truncate': _truncate,
})
import interp as _interp
_vi = BUILTIN['core::ops::index::Index::index']
def _index(I, st, fr, c, args, *a):
    return _str_index(I, st, fr, c, args, *a) or (_lget(I, st, fr, c, args, *a) if re.match(r'.*(Vec<|\[)', I.F.tys(a[0][0]) if a[0] and a[0][0] is not None else '') else None) or _vi(I, st, fr, c, args, *a)
MODELS['core::ops::index::Index::index'] = _index
# format!
def _fmt_arg(I, st, fr, c, args, atys, dty, depth, bb): return [(st, ('tuple', (const('fmt:' + c['name']), I.snap(st, I.deref(st, args[0], 8)))))]
def _fmt_new(I, st, fr, c, args, atys, dty, depth, bb):
    t = I.deref(st, args[0]); a = I.deref(st, args[1])
    bs = t[1] if t[0] == 'const' and isinstance(t[1], bytes) else bytes(x[1] for x in t[1]) if t[0] == 'array' and all(x[0] == 'const' for x in t[1]) else None
    if bs is None or a[0] not in ('array', 'vec'): return None
    i = 0; n = 0; out = []
    while i < len(bs):
        b = bs[i]; i += 1
        if b == 0: break
        if b < 0x80: out.append(bs[i:i + b].decode()); i += b; continue
        if b == 0x80: ln = int.from_bytes(bs[i:i + 2], 'little'); out.append(bs[i + 2:i + 2 + ln].decode()); i += 2 + ln; continue
        if b == 0xC0: k = n
        elif b == 0xC8: k = int.from_bytes(bs[i:i + 2], 'little'); i += 2
        else: return None
        n = k + 1
        x = I.deref(st, a[1][k])
        if x[0] != 'tuple' or x[1][0] != const('fmt:new_display'): return None
        out += parts(I, st, x[1][1])
    return [(st, cat(out))]
MODELS.update({'core::fmt::rt::Argument::<\'_>::new_display': _fmt_arg, 'core::fmt::rt::Argument::<\'_>::new_debug': _fmt_arg, "core::fmt::Arguments::<'a>::new": _fmt_new,
               "core::fmt::Arguments::<'a>::from_str": _same, "core::fmt::Arguments::<'a>::from_str_nonconst": _same, 'alloc::fmt::format': lambda I, st, fr, c, args, atys, dty, depth, bb: [(st, I.deref(st, args[0]))] if I.deref(st, args[0])[0] in ('cat', 'const') or I.deref(st, args[0])[0] == 'tok' else None})
def _expand(I, st, fr, c, args, atys, dty, depth, bb):
    tg = I.target(args[2])
    if tg is None: return None
    I.write_path(st, tg[0], tg[1], cat(parts(I, st, args[2]) + [tok(I.nm(f"Captures::expand({I.render(st, args[0])},{I.render(st, args[1])})"))])); return [(st, ('tuple', ()))]
MODELS["regex::regex::string::Captures::<'h>::expand"] = _expand

# hash maps and sets built from nothing: the list of what was put in
def _coll_new(I, st, fr, c, args, atys, dty, depth, bb): return [(st, ('vec', ()))]
def _coll_insert(I, st, fr, c, args, atys, dty, depth, bb):
    tg = I.target(args[0])
    if tg is None: return None
    v = I.read_path(st, *tg)
    if v[0] != 'vec': return None
    x = I.snap(st, I.deref(st, args[1], 8)) if len(args) == 2 else ('tuple', (I.snap(st, I.deref(st, args[1], 8)), I.snap(st, I.deref(st, args[2], 8))))
    I.write_path(st, tg[0], tg[1], ('vec', v[1] + (x,)))
    return [(st, const(True) if len(args) == 2 else ('adt', 'core::option::Option', 0, ()))]
for _k in ('map::HashMap::<K, V>', 'map::HashMap::<K, V, S>', 'map::HashMap::<K, V, S, A>', 'set::HashSet::<T>', 'set::HashSet::<T, S>', 'set::HashSet::<T, S, A>', 'map::HashMap::<K, V, std::hash::random::RandomState>', 'set::HashSet::<T, std::hash::random::RandomState>'):
    for _n in ('new', 'with_capacity'): MODELS[f"std::collections::hash::{_k}::{_n}"] = _coll_new
    MODELS[f"std::collections::hash::{_k}::insert"] = _coll_insert
# vec![..]: a fresh box that is written through and then taken over by the vector
def _box_uninit(I, st, fr, c, args, atys, dty, depth, bb):
    I.fid += 1; root = (I.fid, 'box'); st.mem[root] = tok(f"uninit")
    return [(st, ('ref', root, ()))]
def _box_into_vec(I, st, fr, c, args, atys, dty, depth, bb):
    tg = I.target(args[0]); v = args[0]
    if tg is None: return None
    v = I.read_path(st, *tg)
    for _ in range(4):
        if v[0] == 'array': return [(st, ('vec', tuple(v[1])))]
        if v[0] == 'rec' and len(v[2]) == 1: v = v[2][0][1]
        elif v[0] == 'adt' and v[3]: v = v[3][-1]
        else: break
    return None
MODELS.update({'alloc::boxed::Box::<T>::new_uninit': _box_uninit, 'alloc::boxed::box_assume_init_into_vec_unsafe': _box_into_vec, '<alloc::vec::Vec<T> as core::default::Default>::default': _coll_new,
               '<std::collections::hash::set::HashSet<T, S> as core::default::Default>::default': _coll_new, '<std::collections::hash::map::HashMap<K, V, S> as core::default::Default>::default': _coll_new})
