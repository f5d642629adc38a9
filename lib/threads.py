"""The command-line program as a network of threads and channels.

Threads that talk only through one-producer one-consumer FIFO channels compute the same streams under every schedule (Kahn), so one
schedule, in which every producer runs before its consumers, stands for all of them. What that argument needs is checked on the way:
no thread waits for a channel that another thread also reads or writes, no channel operation but a blocking `send`/`recv` is used,
nobody else keeps a sender alive, and nothing is shared but cells that only one thread writes.
"""
import re
from interp import tok, const, UNIT, NONE, _some, drain, _collect, _iter_next, Budget
import domain
from domain import parts, cat
O = 'core::option::Option'; R = 'core::result::Result'
def ok(v): return ('adt', R, 0, (v,))
class Unsound(Exception): pass

# ------------------------------------------------------------------ iterator adapters behind `dyn Iterator`
def fld(I, v, name): return {f['n']: i for i, f in enumerate(I.F.adts[v[1]]['variants'][v[2]]['f'])}[name]
def step(I, st, fr, root, path, dty, depth, bb):
    """`next()` of the iterator stored at a place: [(state, Option)], or None when the iterator is not known."""
    v = I.read_path(st, root, path)
    while v[0] == 'ref': root, path = v[1], v[2]; v = I.read_path(st, root, path)
    if v[0] in ('iter', 'tok'): return _iter_next(I, st, fr, {'name': 'next', 'path': 'next', 'u': 'next'}, [('ref', root, path)], [None], dty, depth, bb)
    if v[0] != 'adt': return None
    k = v[1].split('::')[-1]
    F = lambda name: path + (('f', fld(I, v, name), -1, None),)
    if k == 'Box': return step(I, st, fr, root, path + (('f', 0, -1, None),), dty, depth, bb)
    if k == 'Chain':
        out = []
        a = I.read_path(st, root, F('a'))
        if a[0] == 'adt' and a[2] == 1:
            r = step(I, st, fr, root, F('a') + (('f', 0, -1, 1),), dty, depth, bb)
            if r is None: return None
            for s, x in r:
                if x[2] == 1: out.append((s, x)); continue
                I.write_path(s, root, F('a'), NONE); out += step(I, s, fr, root, path, dty, depth, bb)
            return out
        b = I.read_path(st, root, F('b'))
        return [(st, NONE)] if b[0] == 'adt' and b[2] == 0 else step(I, st, fr, root, F('b') + (('f', 0, -1, 1),), dty, depth, bb)
    if k in ('Map', 'Enumerate'):
        r = step(I, st, fr, root, F('iter'), -1, depth, bb); out = []
        if r is None: return None
        for s, x in r:
            if x[2] == 0: out.append((s, x)); continue
            if k == 'Map': out += [(s2, _some(y)) for s2, y in I.call_value(s, fr, I.read_path(s, root, F('f')), [x[3][0]], [None], None, depth, bb)]
            else:
                n = I.read_path(s, root, F('count')); I.write_path(s, root, F('count'), const(n[1] + 1)); out.append((s, _some(('tuple', (n, x[3][0])))))
        return out
    if k == 'Fuse' or k in ('IntoIter', 'Iter') and len(v[3]) == 1: return step(I, st, fr, root, path + (('f', 0, -1, None),), dty, depth, bb)
    if k == 'Cycle':
        r = step(I, st, fr, root, F('iter'), dty, depth, bb); out = []
        if r is None: return None
        for s, x in r:
            if x[2] == 1: out.append((s, x)); continue
            I.write_path(s, root, F('iter'), I.read_path(s, root, F('orig'))); out += step(I, s, fr, root, F('iter'), dty, depth, bb)
        return out
    if k == 'Zip':
        r = step(I, st, fr, root, F('a'), -1, depth, bb); out = []
        if r is None: return None
        for s, x in r:
            if x[2] == 0: out.append((s, x)); continue
            q = step(I, s, fr, root, F('b'), -1, depth, bb)
            if q is None: return None
            out += [(s2, y if y[2] == 0 else _some(('tuple', (x[3][0], y[3][0])))) for s2, y in q]
        return out
    return None
def any_next(I, st, fr, c, args, atys, dty, depth, bb):
    tg = I.target(args[0])
    return step(I, st, fr, tg[0], tg[1], dty, depth, bb) if tg else None
def for_each(I, st, fr, c, args, atys, dty, depth, bb):
    I.fid += 1; root = (I.fid, 'it'); st.mem[root] = I.deref(st, args[0]); work = [st]; out = []
    while work:
        s = work.pop(); r = step(I, s, fr, root, (), -1, depth, bb)
        if r is None: return None
        for s2, x in r:
            if x[2] == 0: out.append((s2, UNIT))
            else: work += [s3 for s3, _ in I.call_value(s2, fr, args[1], [x[3][0]], [None], None, depth, bb)]
    return out
def pair(I, st, fr, c, args, atys, dty, depth, bb):
    """collect()/unzip() of pairs into a pair of lists."""
    if I.F.ty(dty).get('k') != 'tuple': return None
    I.fid += 1; root = (I.fid, 'it'); st.mem[root] = I.deref(st, args[0]); out = []; keep = I.maxlen; I.maxlen = max(keep, 16)
    try: r = drain(I, st, fr, root, c.get('next'), [], c.get('next_ty', dty), dty, depth, bb)
    finally: I.maxlen = keep
    for s, v in r:
        if v[0] != 'vec': return None
        xs = [I.deref(s, x) for x in v[1]]
        out.append((s, ('tuple', tuple(('vec', tuple(I.proj(s, x, ('f', j, -1, None)) for x in xs)) for j in range(2)))))
    return out
def size_hint(I, st, fr, c, args, atys, dty, depth, bb):
    v = I.deref(st, args[0])
    if v[0] != 'iter' or not isinstance(v[1], tuple): return None
    n = const(len(v[1]) - v[2]); return [(st, ('tuple', (n, _some(n))))]

# ------------------------------------------------------------------ channels, threads, shared cells
def counter(st, k): n = st.mem.get(('N', k), const(0))[1]; st.mem[('N', k)] = const(n + 1); return n
def channel(I, st, fr, c, args, atys, dty, depth, bb):
    n = counter(st, 'ch'); st.mem[('CH', n)] = ('vec', ())
    return [(st, ('tuple', (tok(f'tx{n}'), tok(f'rx{n}'))))]
def which(I, st, a, kind):
    v = I.deref(st, a, 8); m = re.fullmatch(kind + r'(\d+)', v[1]) if v[0] == 'tok' and isinstance(v[1], str) else None
    if not m: raise Unsound(f"a channel end that cannot be told apart ({I.render(st, v)[:80]})")
    n = int(m.group(1)); me = st.mem.get(('N', 'thread'), const(-1)); o = st.mem.get(('OWN', kind, n))
    if o is not None and o != me: raise Unsound(f"two threads use the {'sending' if kind == 'tx' else 'receiving'} end of one channel")
    st.mem[('OWN', kind, n)] = me
    return n
def send(I, st, fr, c, args, atys, dty, depth, bb):
    n = which(I, st, args[0], 'tx'); q = st.mem[('CH', n)]
    if st.mem.get(('OWN', 'rx', n)) not in (None, st.mem.get(('N', 'thread'))): raise Unsound('a channel is written after its reader has finished')
    st.mem[('CH', n)] = ('vec', q[1] + (I.snap(st, I.deref(st, args[1])),)); return [(st, ok(UNIT))]
def recv(I, st, fr, c, args, atys, dty, depth, bb):
    n = which(I, st, args[0], 'rx'); q = st.mem[('CH', n)][1]
    if not q: return [(st, ('adt', R, 1, (tok('RecvError'),)))]
    st.mem[('CH', n)] = ('vec', q[1:]); return [(st, ok(q[0]))]
def recv_next(I, st, fr, c, args, atys, dty, depth, bb):
    v = I.deref(st, args[0])
    if v[0] == 'adt': v = I.deref(st, v[3][0], 8)
    return [(s, _some(r[3][0]) if r[2] == 0 else NONE) for s, r in recv(I, st, fr, c, [v], atys, dty, depth, bb)]
def mutex(I, st, fr, c, args, atys, dty, depth, bb):
    I.fid += 1; root = (I.fid, 'cell'); st.mem[root] = args[0]; return [(st, ('ref', root, ()))]
def cell(I, st, a):
    while a[0] == 'ref':
        if isinstance(a[1], tuple) and a[1][1:] == ('cell',) and not a[2]: return a
        a = I.read_path(st, a[1], a[2])
    return None
def written(st, r):
    me = st.mem.get(('N', 'thread'), const(-1)); o = st.mem.get(('OWN', 'cell', r[1][0]))
    if me != const(-1):
        if o is not None and o != me: raise Unsound('two threads use one shared cell')
        st.mem[('OWN', 'cell', r[1][0])] = me
def lock(I, st, fr, c, args, atys, dty, depth, bb):
    r = cell(I, st, args[0])
    if r is None: return None
    written(st, r); return [(st, ok(r))]
def guard(I, st, fr, c, args, atys, dty, depth, bb):
    r = cell(I, st, args[0]); return None if r is None else [(st, r)]
def into_inner(I, st, fr, c, args, atys, dty, depth, bb):
    r = cell(I, st, args[0]); return None if r is None else [(st, ok(I.read_path(st, r[1], ())))]
def at_load(I, st, fr, c, args, atys, dty, depth, bb):
    r = cell(I, st, args[0]); return None if r is None else [(st, I.read_path(st, r[1], ()))]
def at_store(I, st, fr, c, args, atys, dty, depth, bb):
    r = cell(I, st, args[0])
    if r is None: return None
    written(st, r); old = I.read_path(st, r[1], ())
    new = args[1] if c['name'] in ('store', 'swap') else const((old[1] or args[1][1]) if c['name'] == 'fetch_or' else (old[1] and args[1][1]))
    I.write_path(st, r[1], (), new); return [(st, UNIT if c['name'] == 'store' else old)]
def spawn(I, st, fr, c, args, atys, dty, depth, bb):
    f = I.deref(st, args[-1])
    if f[0] != 'clo': raise Unsound('a thread runs something that is not a closure')
    for x in f[2] if isinstance(f[2], tuple) else ():
        if x[0] == 'ref' and re.search(r'\btx\d', I.render(st, x)): raise Unsound('a thread only borrows its senders: they stay alive and its consumers wait for ever')
    q = st.mem.get(('N', 'spawned'), ('vec', ())); st.mem[('N', 'spawned')] = ('vec', q[1] + (f,))
    r = tok('thread'); return [(st, r if c['name'] == 'spawn' and 'Builder' not in c['path'] else ok(r))]
def scope(I, st, fr, c, args, atys, dty, depth, bb):
    outs = []
    for s, v in I.call_closure(st, fr, I.deref(st, args[0]), [tok('scope')], depth):
        q = s.mem.get(('N', 'spawned'), ('vec', ()))[1]
        ends = [(set(re.findall(r'\btx(\d+)', t)), set(re.findall(r'\brx(\d+)', t))) for t in (I.render(s, f) for f in q)]
        order, left = [], list(range(len(q)))
        while left:
            free = [i for i in left if not any(ends[j][0] & ends[i][1] for j in left if j != i)]
            if not free: raise Unsound('threads wait for each other in a cycle')
            order.append(free[0]); left.remove(free[0])
        cur = [s]
        for i in order:
            nxt = []
            for s2 in cur:
                s2.mem[('N', 'thread')] = const(i)
                nxt += [s3 for s3, _ in I.call_closure(s2, fr, q[i], [], depth)]
            cur = nxt
        for s2 in cur:
            s2.mem[('N', 'thread')] = const(-1)
            for k, x in s2.mem.items():
                if k[0] == 'CH' and x[1]: raise Unsound('something was sent that nobody receives')
        outs += [(s2, v) for s2 in cur]
    return outs
def printer(stream):
    def m(I, st, fr, c, args, atys, dty, depth, bb):
        st.mem[('T', stream)] = cat(parts(I, st, st.mem.get(('T', stream), const(''))) + parts(I, st, args[-1])); return [(st, UNIT)]
    return m
def write_to(I, st, fr, c, args, atys, dty, depth, bb):
    t = I.F.tys(I.F.peel(atys[0])) if atys and atys[0] is not None else ''
    if 'Stdout' not in t and 'Stderr' not in t: return None
    printer('stdout' if 'Stdout' in t else 'stderr')(I, st, fr, c, args, atys, dty, depth, bb); return [(st, ok(UNIT))]
def fmt_new(I, st, fr, c, args, atys, dty, depth, bb):
    """format_args!: `{:?}` of x is the text `debug(x)`."""
    a = I.deref(st, args[1])
    if a[0] not in ('array', 'vec'): return None
    xs = []
    for x in a[1]:
        x = I.deref(st, x)
        if x[0] == 'tuple' and x[1][0] == const('fmt:new_debug'): x = ('tuple', (const('fmt:new_display'), tok(I.nm(f"debug({I.render(st, x[1][1])})"))))
        xs.append(x)
    return domain._fmt_new(I, st, fr, c, [args[0], ('array', tuple(xs))], atys, dty, depth, bb)
def to_string(I, st, fr, c, args, atys, dty, depth, bb): return [(st, cat(parts(I, st, I.snap(st, I.deref(st, args[0], 8)))))]
def fmt_format(I, st, fr, c, args, atys, dty, depth, bb): return [(st, I.deref(st, args[0]))]
def cli(n):
    """Args::parse() with the number of worker threads fixed."""
    def m(I, st, fr, c, args, atys, dty, depth, bb):
        T = I.F.ty(dty)
        if T.get('adt', '').split('::')[-1] != 'Args': return None
        return [(st, ('adt', T['adt'], 0, tuple(const(n) if f['n'] == 'threads' else tok('args.' + f['n']) for f in I.F.adts[T['adt']]['variants'][0]['f'])))]
    return m
CH = 'std::sync::mpsc::'
MODELS = {CH + 'channel': channel, CH + 'Sender::<T>::send': send, CH + 'Receiver::<T>::recv': recv, 'spawn_scoped': spawn, 'std::thread::scoped::scope': scope, "std::thread::scoped::Scope::<'scope, 'env>::spawn": spawn,
          '_print': printer('stdout'), '_eprint': printer('stderr'), 'write_fmt': write_to, 'write_all': write_to, 'write_str': write_to,
          "core::fmt::Arguments::<'a>::new": fmt_new, 'alloc::fmt::format': fmt_format, 'alloc::string::ToString::to_string': to_string, 'unzip': pair, 'size_hint': size_hint, 'for_each': for_each,
          'std::sync::poison::mutex::Mutex::<T>::new': mutex, 'std::sync::poison::mutex::Mutex::<T>::lock': lock, 'std::sync::poison::mutex::Mutex::<T>::into_inner': into_inner,
          **{f"<std::sync::poison::mutex::MutexGuard<'_, T> as core::ops::deref::{x}": guard for x in ('Deref>::deref', 'DerefMut>::deref_mut')},
          'collect': lambda *a: pair(*a) or _collect(*a)}
for _n in ('new',): MODELS[f'core::sync::atomic::AtomicBool::{_n}'] = mutex
for _n in ('store', 'swap', 'fetch_or', 'fetch_and'): MODELS[f'core::sync::atomic::AtomicBool::{_n}'] = at_store
MODELS['core::sync::atomic::AtomicBool::load'] = at_load
for _n in ('IntoIter', "Iter<'a"): MODELS[f"<std::sync::mpsc::{_n}{', ' if 'Iter<' in _n else '<'}T> as core::iter::traits::iterator::Iterator>::next"] = recv_next
def nxt(I, st, fr, c, args, atys, dty, depth, bb):
    v = I.deref(st, args[0])
    return any_next(I, st, fr, c, args, atys, dty, depth, bb) if v[0] == 'adt' and v[1].split('::')[-1] in ('Chain', 'Zip', 'Cycle', 'Box', 'Map', 'Enumerate') else None
MODELS['core::iter::traits::iterator::Iterator::next'] = nxt
OPAQUE = ('Config::load_or_get_default_no_cache', 'Config::load_from_file', 'Config::assert_suitability', 'Config::run_tests', 'ParamsDiff::apply', 'ParamsDiffArgParser::build', 'ParamsDiffArgParser::does_anything',
          'TaskConfig::from_str', 'TaskConfig::parse', 'JobConfig::new_task', 'Task::do', 'HttpClientConfigDiff::apply')
OPNAMES = {'does_anything', 'new_task', 'do', 'r#do', 'assert_suitability', 'run_tests', 'load_or_get_default_no_cache'}
def opaque(c): return domain.short(c['path']) in OPAQUE or c['path'].endswith(OPAQUE) or c['name'] in OPNAMES or 'clap' in c['path'] or 'serde' in c['path'] or 'CachePath' in c['path']
FORBIDDEN = ('try_recv', 'recv_timeout', 'recv_deadline', 'try_send', 'try_lock', 'try_iter', 'sleep', 'park', 'sync_channel')
def events(c):
    if c['path'].startswith('std::sync::mpsc') and c['name'] in FORBIDDEN or c['name'] in ('try_lock', 'sleep') and c['crate'] == 'std': return 'timing:' + c['name']
    if c['name'] == 'exit' and c['crate'] == 'std': return 'exit'
    if c['path'].startswith('std::sync::mpsc') and c['name'] == 'clone': return 'sender:clone'
    if c['name'] in ('assert_suitability', 'run_tests'): return c['name']
    return domain.events()(c)
