"""Who can reach the outside world: every call of an operation with an outside effect is followed up the call graph to the constructs that may perform it."""
import re
# class of effect: (what its callees look like, what it is)
CLASSES = [
    ('process', r'std::process::(Command::(new|spawn|status|output|exec)|exit|abort)|std::os::.*::(exec|spawn)', 'starts or ends a process'),
    ('files', r'std::fs::|std::path::Path::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|read_dir|canonicalize|read_link)|diesel::.*(Connection::establish)|std::os::.*::fs', 'touches the file system'),
    ('environment', r'std::env::', 'reads or changes the process environment'),
    ('network client', r'reqwest::(blocking::)?(get$|client::Client::(new|builder|default|execute)|.*client::ClientBuilder::(new|build)|async_impl)', 'makes or uses an HTTP client'),
    ('network', r'std::net::(Tcp|Udp|ToSocketAddrs|UnixStream)|reqwest::blocking::request::RequestBuilder::send|reqwest::blocking::client::Client::execute', 'uses the network'),
    ('waiting', r'std::thread::(functions::)?(sleep|park|yield_now)', 'waits'),
    ('threads', r'std::thread::(functions::spawn|builder::Builder::spawn|spawn|.*::spawn_scoped|scoped::scope)', 'starts a thread'),
    ('stdout', r'std::io::stdio::(_print|stdout|Stdout::.*)$', 'writes to standard output'),
    ('stderr', r'std::io::stdio::(_eprint|stderr|Stderr::.*)$', 'writes to standard error'),
    ('stdin', r'std::io::stdio::(stdin|Stdin::.*|read_to_string)$', 'reads standard input'),
]
# harmless members of the modules above
PURE = re.compile(r'std::fs::(Metadata|FileType|Permissions)::|std::env::(VarError|args|Args)|std::env::vars\b.*::next')
# (class, operation) -> where the library may do it: function, and the variant it is for when the function serves several
D = 'Debug'
DOORS = {
    'process': [(r'^glue::command::CommandConfig::(build|exit_code|output)$', None)],
    'files': [(r'^glue::command::CommandConfig::exists$', None, r'Path::exists'), (r'^types::config::Config::load_from_file$', None, r'read_to_string|File::open|File::read'), (r'^glue::caching::InnerCache::connect$', None, r'exists|create_new|OpenOptions|establish')],
    'environment': [(r'^types::flag_var_thing::var::VarType::get$', None, r'std::env::var(_os)?$')],
    'network client': [(r'^glue::http_client_config::HttpClientConfig::make$', None)],
    'network': [(r'^glue::http::RequestConfig::send$', None), (r'^types::rules::mappers::Mapper::apply$', 'ExpandRedirect')],
    'waiting': [(r'^types::rules::mappers::Mapper::apply$', 'Retry')],
    'threads': [], 'stdout': [], 'stdin': [],
    'stderr': [(r'^types::.*::(get|set|satisfied_by|apply)$', D)],
}

def kind(f):
    n = f.get('u') or ''; p = f.get('path') or n
    if f.get('uc') in ('core', 'alloc') and not re.search(r'Default::default$', n): return None
    for x in {n, p}:
        if PURE.search(x): return None
        for c, r, w in CLASSES:
            if re.search(r'(?:^|<|impl )' + '(?:' + r + ')', x) or re.match(r, x): return c, x
    return None

def succ(t):
    """Successor blocks of a terminator, as (block, switch value or None)."""
    if t[0] == 'switch': return [(b, v) for v, b in t[2]] + ([(t[3], None)] if t[3] is not None else [])
    k = {'goto': 1, 'drop': 2, 'assert': 4, 'call': 4}.get(t[0])
    return [(t[k], None)] if k and isinstance(t[k], int) and t[k] >= 0 else []

def place_ty(F, b, pl):
    t = b['locals'][pl[0]]; t = t if isinstance(t, int) else t.get('t', t.get('ty'))
    for s in pl[1:]:
        x = F.ty(t)
        if s == '*': t = x.get('to') if x.get('k') in ('ref', 'ptr') else (x.get('args') or [None])[0]
        elif s[0] == 'f': t = s[2]
        elif s[0] == 'v': pass
        else: return None
        if t is None: return None
    return t

def only_on(F, b, block, variant):
    """Is `block` reached only through `self` being this variant?"""
    if 'impl_self' not in b: return False
    adt = F.adt_of(b['impl_self'])
    if adt not in F.adts: return False
    idx = [i for i, v in enumerate(F.adts[adt]['variants']) if v['n'] == variant]
    if not idx: return False
    seen = set(); work = [0]
    while work:
        k = work.pop()
        if k in seen: continue
        seen.add(k); bb = b['bb'][k]; t = bb['t']
        on = None
        if t[0] == 'switch':
            o = t[1].get('m') or t[1].get('c')
            for s in bb['s']:
                if s[0] == '=' and o and s[1] == o and s[2][0] == 'discr' and F.adt_of(place_ty(F, b, s[2][1])) == adt: on = True
            listed = [v for v, _ in t[2]]
        for n, v in succ(t):
            if on and (v == idx[0] if v is not None else (idx[0] not in listed and len(listed) >= len(F.adts[adt]['variants']) - 1)): continue
            work.append(n)
    return block not in seen

def callers(F):
    up = {}
    for b in F.local:
        for i, bb in enumerate(b['bb']):
            fs = []
            def op(o):
                if isinstance(o, dict) and 'k' in o and o['k'].get('fn'): fs.append(o['k']['fn'])
            for s in bb['s']:
                if s[0] != '=': continue
                if s[2][0] == 'agg':
                    if s[2][1][0] == 'closure': up.setdefault(s[2][1][1], []).append((b, i))
                    for o in s[2][2]: op(o)
                else:
                    for o in s[2][1:]: op(o)
            if bb['t'][0] == 'call':
                op(bb['t'][1]); [op(a) for a in bb['t'][2]]
            for f in fs: up.setdefault(f['key'], []).append((b, i))
    return up

def confine(rep, F, doors, what='the library', skip=(), only=None):
    up = callers(F); sites = {}
    for b in F.local:
        if b['crate'] != F.crate or b['key'] in skip: continue
        for i, bb in enumerate(b['bb']):
            ops = [bb['t'][1]] + bb['t'][2] if bb['t'][0] == 'call' else []
            for s in bb['s']:
                if s[0] == '=': ops += s[2][2] if s[2][0] == 'agg' else [x for x in s[2][1:] if isinstance(x, dict)]
            for o in ops:
                f = o.get('k', {}).get('fn') if isinstance(o, dict) else None
                if not f: continue
                k = kind(f)
                if k and (only is None or k[0] in only): sites.setdefault((k[0], k[1], b['key'], i), b)
    say = {c: w for c, _, w in CLASSES}
    for (c, op, key, i), b in sorted(sites.items(), key=lambda x: str(x[0])):
        rep.count('effect sites'); rep.count(f"{c} sites")
        seen = set(); work = [(b, i, [b['path']])]; passed = set()
        while work:
            x, k, path = work.pop()
            hit = [d for d in doors.get(c, []) if re.search(d[0], x['path'].split('::{closure')[0] if d[1] is None else x['path']) and (len(d) < 3 or re.search(d[2], op))]
            if any(d[1] is None or only_on(F, x, k, d[1]) for d in hit): passed.add(x['path']); continue
            if x['dk'] != 'Closure' and (x['key'] in seen): continue
            seen.add(x['key']); ups = [u for u in up.get(x['key'], []) if u[0]['key'] != x['key']]
            if not ups or hit:
                why = f", on other variants than {hit[0][1]} too" if hit else ''
                rep.bad(f"{c}:{b['path']}:{op}", f"{op} ({say[c]}) is called by {' <- '.join(path)}{why}, which is not a place where {what} may do so", b['bb'][i]['t'][-1] if isinstance(b['bb'][i]['t'][-1], str) else '')
                continue
            for u, j in ups: work.append((u, j, path + [u['path']]))
        for p in passed: rep.count('doors used'); rep.sample(f"{op} [{c}] only through {p}")
