"""The cache contract: the SQL statements each path issues, evaluated on small tables, against a keyed store."""
import re, itertools
from interp import Interp, Budget, tok, UNIT
from runner import where
import domain, strs
R_ = 'core::result::Result'
RUN = ('execute', 'load', 'first', 'get_result', 'get_results', 'load_iter')
def events(c):
    p, n, cr = c['path'], c['name'], c.get('crate', '')
    if cr.startswith('diesel'):
        if n in RUN and 'RunQueryDsl' in c['u']: return 'sql_' + n
        if n == 'establish': return 'establish'
        if n in ('batch_execute', 'begin_test_transaction'): return 'sql_' + n
    if cr.startswith('url_cleaner') and domain.label(c) == 'InnerCache::connect': return 'connect'
    if p.startswith(('std::fs::', '<std::fs::')) : return 'fs_' + n
    if 'once_cell' in p or 'cell::once::OnceCell' in p or 'OnceCell' in p:
        if n in ('set', 'take'): return 'cell_' + n
    return None
def _tx(I, st, fr, c, args, atys, dty, depth, bb):
    """Connection::transaction: the closure between BEGIN and COMMIT, undone when it fails."""
    def ev(s, label, fallible):
        k = len(s.events) + 1; out = []
        for n in ('Ok', 'Err') if fallible else ('Ok',):
            s2 = s.copy(); I.opaque_call(s2, {'path': label, 'u': label, 'name': label, 'crate': '?'}, [], [], None, bb, event=label)
            if fallible: s2.facts[f"{label}#{k}"] = n
            out.append((s2, n, ('adt', R_, 1, (tok(f"{label}#{k}.Err.0"),))))
        return out
    f = I.deref(st, args[1]); out = []
    if f[0] != 'clo': return None
    for s, n, e in ev(st, 'begin', True):
        if n == 'Err': out.append((s, e)); continue
        for s2, rv in I.call_closure(s, fr, f, [args[0]], depth):
            from interp import fork2
            for s3, w, pay in fork2(s2, I.deref(s2, rv), ('Ok', 'Err')):
                if w == 'Ok':
                    for s4, n4, e4 in ev(s3, 'commit', True): out.append((s4, ('adt', R_, 0, (pay,)) if n4 == 'Ok' else e4))
                else:
                    for s4, n4, e4 in ev(s3, 'rollback', False): out.append((s4, ('adt', R_, 1, (pay,))))
    return out
MODELS = {k: _tx for k in ('diesel::connection::Connection::transaction', 'diesel::sqlite::connection::SqliteConnection::immediate_transaction', 'diesel::sqlite::connection::SqliteConnection::exclusive_transaction',
                           'diesel::sqlite::SqliteConnection::immediate_transaction', 'diesel::sqlite::SqliteConnection::exclusive_transaction', 'immediate_transaction', 'exclusive_transaction')}
def engine(F, look=(), **kw):
    own = {'glue::caching::'}
    return Interp(F, events=events, opaque=lambda c: False, models={**domain.MODELS, **MODELS}, maxev=12, **kw)

# ------------------------------------------------------------------ statements on a table
class Table:
    def __init__(self, rows): self.rows = rows
def plain(x): return re.sub(r'\b(\w+)#(\d+)', r'\1_\2', x)
def text(v): return v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] == 'Some' else None if v == strs.NONE else v
COLS = ('id', 'category', 'key', 'value')
def optional(r): return ('Ok', strs.some(r[1])) if r[0] == 'Ok' else ('Ok', strs.NONE) if r[1] == ('NotFound',) else r
class Ev(strs.Eval):
    def __init__(self, env): super().__init__(env, {'optional': optional})
    def _e(self, x):
        if x[0] == 'rec': return (x[1].split('::')[-1], {a: self.e(y) for a, y in x[2]})
        if x[0] == 'dot':
            v = self.e(x[1])
            if isinstance(v, dict): return v[x[2]]
        return super()._e(x)
    def query(self, x):
        """(predicates, limit, orders, projection) of a query term"""
        if x == ('name', 'table') or x == ('name', 'cache'): return ([], None, [], None)
        if x[0] != 'call': raise strs.Unknown(str(x)[:80])
        n = x[1].split('::')[-1]; a = x[2]
        if n in ('filter', 'find', 'limit', 'order', 'order_by', 'then_order_by', 'select', 'into_boxed', 'as_query', 'distinct', 'offset'):
            p, l, o, s = self.query(a[0])
            if n == 'filter': return (p + [a[1]], l, o, s)
            if n == 'limit': return (p, self.e(a[1]), o, s)
            if n in ('order', 'order_by'): return (p, l, [a[1]], s)
            if n == 'then_order_by': return (p, l, o + [a[1]], s)
            if n == 'select': return (p, l, o, a[1])
            if n in ('into_boxed', 'as_query'): return (p, l, o, s)
        raise strs.Unknown(x[1])
    def val(self, x, row):
        if x[0] == 'name' and x[1].split('::')[-1] in COLS: return row[x[1].split('::')[-1]]
        return text(self.e(x))
    def pred(self, x, row):
        if x[0] != 'call': raise strs.Unknown(str(x)[:60])
        n = x[1].split('::')[-1]; a = x[2]
        if n in ('eq', 'ne', 'is', 'is_not_distinct_from', 'is_distinct_from', 'is_not'):
            p, q = self.val(a[0], row), self.val(a[1], row)
            if n in ('eq', 'ne') and (p is None or q is None): return None
            return (p == q) == (n in ('eq', 'is', 'is_not_distinct_from'))
        if n in ('and', 'or'):
            p, q = self.pred(a[0], row), self.pred(a[1], row)
            return (p and q) if n == 'and' else (p or q)
        if n == 'is_null': return self.val(a[0], row) is None
        if n == 'is_not_null': return self.val(a[0], row) is not None
        if n in ('not', 'single_value', 'grouped'): r = self.pred(a[0], row); return (not r if r is not None else None) if n == 'not' else r
        if n == 'like':
            p, q = self.val(a[0], row), self.val(a[1], row)
            if p is None or q is None: return None
            return re.fullmatch(''.join('.*' if ch == '%' else '.' if ch == '_' else re.escape(ch) for ch in q), p, re.S | re.I) is not None
        raise strs.Unknown(x[1])
    def rows(self, q, T):
        p, l, o, s = q
        rs = [r for r in T.rows if all(self.pred(y, r) for y in p)]
        for y in reversed(o):
            d = y[0] == 'call' and y[1].split('::')[-1] == 'desc'
            col = y[2][0] if y[0] == 'call' and y[1].split('::')[-1] in ('asc', 'desc') else y
            rs = sorted(rs, key=lambda r: (self.val(col, r) is not None, self.val(col, r)), reverse=d)
        return rs[:l] if l is not None else rs
    def project(self, s, r):
        out = lambda v, c: strs.some(v) if c == 'value' else v
        if s is None: return {k: out(v, k) for k, v in r.items()}
        if s[0] == 'call' and s[1].endswith('as_select'): return {k: out(v, k) for k, v in r.items()}
        if s[0] == 'name': c = s[1].split('::')[-1]; return out(r[c], c)
        if s[0] == 'tup': return tuple(self.project(y, r) for y in s[1])
        raise strs.Unknown(str(s)[:60])
    def assign(self, x):
        """{column: value} of what is inserted or set"""
        if x[0] == 'rec' or x[0] == 'call' and x[1].split('::')[-1] == 'eq':
            if x[0] == 'call': return {x[2][0][1].split('::')[-1]: text(self.e(x[2][1]))}
            return {a: text(self.e(y)) for a, y in x[2]}
        if x[0] == 'tup': return {k: v for y in x[1] for k, v in self.assign(y).items()}
        raise strs.Unknown(str(x)[:60])
    def run(self, x, T):
        """A statement's effect: the new rows."""
        if x[0] != 'call': raise strs.Unknown(str(x)[:60])
        n = x[1].split('::')[-1]; a = x[2]
        if n == 'returning': return self.run(a[0], T)
        if n == 'delete':
            q = self.query(a[0]); hit = [r['id'] for r in self.rows(q, T)]
            return [r for r in T.rows if r['id'] not in hit], len(hit)
        if n == 'filter' and a[0][0] == 'call' and a[0][1].split('::')[-1] == 'delete':
            p, q, o, s = self.query(a[0][2][0]); hit = [r['id'] for r in self.rows((p + [a[1]], q, o, s), T)]
            return [r for r in T.rows if r['id'] not in hit], len(hit)
        if n == 'values' and a[0][0] == 'call' and a[0][1].split('::')[-1] in ('insert_into', 'replace_into', 'insert_or_ignore_into'):
            new = {'id': max([r['id'] for r in T.rows], default=0) + 1, 'category': None, 'key': None, 'value': None, **self.assign(a[1])}
            return T.rows + [new], 1
        if n == 'set' and a[0][0] == 'call' and a[0][1].split('::')[-1] in ('update', 'filter'):
            q = a[0]; extra = []
            while q[1].split('::')[-1] == 'filter': extra.append(q[2][1]); q = q[2][0]
            p, l, o, s = self.query(q[2][0]); hit = [r['id'] for r in self.rows((p + extra, l, o, s), T)]; new = self.assign(a[1])
            return [{**r, **new} if r['id'] in hit else r for r in T.rows], len(hit)
        raise strs.Unknown(x[1])
CAT, KEY = 'c', 'k'
def db(*rows): return [dict(zip(COLS, (i + 1,) + r)) for i, r in enumerate(rows)]
TABLES = [db(), db((CAT, KEY, 'old')), db((CAT, KEY, None)), db((CAT, 'k2', 'x')), db(('c2', KEY, 'y')), db(('c2', KEY, 'y'), (CAT, 'k2', 'x')), db((CAT, 'k2', 'x'), (CAT, KEY, 'old'), ('c2', KEY, None)), db((CAT, KEY, 'old'), ('c2', 'k2', 'z')), db((KEY, CAT, 'swapped')), db((CAT, 'K', 'case'))]
def view(rows, skip=None): return sorted(((r['category'], r['key'], r['value']) for r in rows), key=repr)
def worlds(s, rows, env):
    """Every run of this path on a table: (evaluator, rows, outcome of every statement)"""
    evs = s.events; states = [(rows, None, {})]        # rows, rows at BEGIN, results
    for e in evs:
        n = f"{e.label}#{e.k}"; f = s.facts.get(n); nxt = []
        for rs, saved, res in states:
            E = Ev({**env, **res}); key = plain(n)
            if e.label == 'begin':
                nxt.append((rs, rs if f == 'Ok' else saved, res))
            elif e.label == 'commit': nxt.append((rs if f == 'Ok' else saved, None, {**res, key: (f, None)}))
            elif e.label == 'rollback': nxt.append((saved, None, res))
            elif e.label.startswith('sql_'):
                for o in ((f,) if f in ('Ok', 'Err') else ('Ok', 'Err')):
                    if o == 'Err': nxt.append((rs, saved, {**res, key: ('Err', ('DatabaseError',))})); continue
                    x = strs.parse(plain(str(e.args[0]))); T = Table(rs)
                    if e.label == 'sql_execute': r2, k = E.run(x, T); nxt.append((r2, saved, {**res, key: ('Ok', k)}))
                    else:
                        if x[0] == 'call' and x[1].split('::')[-1] in ('values', 'set', 'delete', 'returning'): r2, k = E.run(x, T); nxt.append((r2, saved, {**res, key: ('Ok', k)})); continue
                        q = E.query(x); out = [E.project(q[3], r) for r in E.rows(q, T)]
                        if e.label in ('sql_first', 'sql_get_result'):
                            if out: nxt.append((rs, saved, {**res, key: ('Ok', out[0])}))
                            elif f != 'Ok': nxt.append((rs, saved, {**res, key: ('Err', ('NotFound',))}))
                        else: nxt.append((rs, saved, {**res, key: ('Ok', out)}))
            else: nxt.append((rs, saved, {**res, key: (f or 'Ok', ('name', n))}))
        states = nxt
    for rs, saved, res in states:
        E = Ev({**env, **res}); ok = True
        for k, v in s.facts.items():
            if k.startswith('iv:'): continue
            try:
                if E.holds(plain(k), v) is False: ok = False; break
            except (strs.Unknown, IndexError, KeyError, TypeError, AttributeError): continue
        if ok: yield E, rs if saved is None else saved, res
def contract(rep, F, which):
    b = [x for x in F.real if x['path'].endswith('::InnerCache::' + which)][0]
    I = engine(F); names = {'read': ('self', 'C', 'K'), 'write': ('self', 'C', 'K', 'V')}[which]; n = 0; odd = set()
    res = I.run(b, [tok(x) for x in names]); rep.count('paths', len(res)); rep.count('steps', I.steps); rep.count('obligations'); w = where(b)
    for s, rv in res:
        st_events = [e.label for e in s.events]; r = plain(I.render(s, rv))
        rep.count('statements', sum(x.startswith('sql_') for x in st_events))
        conns = {str(e.args[-1]) for e in s.events if e.label.startswith('sql_')}
        if any('connect#' not in x for x in conns): rep.bad(f"{which}:connection", f"InnerCache::{which} runs a statement on {sorted(conns)[0][:80]}, not on its own connection", w)
        for rows in TABLES:
            for V in ((strs.NONE, ('Some', 'new'), ('Some', ''), ('Some', 'old')) if which == 'write' else (None,)):
                try:
                    for E, after, results in worlds(s, rows, {'C': CAT, 'K': KEY, 'V': V}):
                        n += 1; failed = [k for k, v in results.items() if v[0] == 'Err' and v[1] != ('NotFound',)] + [e.label for e in s.events if s.facts.get(f"{e.label}#{e.k}") == 'Err' and e.label in ('begin',)]
                        try: got = E.e(strs.parse(r))
                        except strs.Unknown as x: odd.add(str(x)[:100]); continue
                        tag = got[0] if isinstance(got, tuple) and got else None
                        if tag not in ('Ok', 'Err'): odd.add(r[:80]); continue
                        st_ = f"with the table {view(rows)}" + (f" and the value {text(V)!r}" if which == 'write' else '')
                        if tag == 'Ok' and failed: rep.bad(f"{which}:swallow", f"InnerCache::{which} returns Ok although {failed[0].replace('_', ' ')} failed", w); continue
                        if tag == 'Err' and not failed: rep.bad(f"{which}:err", f"InnerCache::{which} returns an error {st_} although no operation failed", w); continue
                        hit = [x for x in rows if (x['category'], x['key']) == (CAT, KEY)]
                        if which == 'read' or tag == 'Err':
                            if view(after) != view(rows): rep.bad(f"{which}:unchanged:{tag}", f"InnerCache::{which} " + ('that fails' if tag == 'Err' else '') + f" {st_} leaves {view(after)}", w)
                        if tag == 'Err': continue
                        if which == 'read':
                            want = ('Some', strs.some(hit[0]['value'])) if hit else strs.NONE
                            if got[1] != want: rep.bad('read:value', f"InnerCache::read of ({CAT}, {KEY}) {st_} returns {got[1]}, not {want}", w)
                        else:
                            rest = view([x for x in rows if x not in hit]); mine = [x for x in after if (x['category'], x['key']) == (CAT, KEY)]
                            if view([x for x in after if x not in mine]) != rest: rep.bad('write:others', f"InnerCache::write {st_} leaves {view(after)}: another entry changed", w)
                            elif [x['value'] for x in mine] != [text(V)]: rep.bad('write:value', f"InnerCache::write {st_} leaves {view(after)}: the entry of its category and key is not exactly the value written", w)
                except (strs.Unknown, IndexError) as x: odd.add(str(x)[:100])
    rep.count('tables', n)
    for o in sorted(odd)[:3]: rep.note(f"InnerCache::{which}: not evaluated: {o}")
    if not n: rep.bad(f"{which}:none", f"no path of InnerCache::{which} could be evaluated on a table", w)
DDL = re.compile(r'create table if not exists "?cache"? ?\( ?(.*) ?\);?')
def ddl(x):
    """What is wrong with a statement that makes sure the table is there."""
    t = re.sub(r'\s+', ' ', x.strip().lower()); m = DDL.fullmatch(t)
    if not m: return 'it does not create the table when it is missing and leave it alone otherwise'
    cols = {}
    for y in re.split(r',(?![^()]*\))', m.group(1)):
        p = y.strip().split(' ', 1); cols[p[0].strip('"`[]')] = p[1] if len(p) > 1 else ''
    for c, must in (('id', ('integer', 'primary key')), ('category', ('text',)), ('key', ('text',)), ('value', ('text',))):
        if c not in cols or any(w not in cols[c] for w in must): return f"the column {c} is missing or has another type"
    if 'not null' in cols['value']: return 'the value cannot be absent'
    if 'unique' in t: return 'a uniqueness constraint makes writes fail'
    return None
def connect(rep, F):
    bs = [x for x in F.real if x['path'].endswith('::InnerCache::connect')]; b = bs[0]; w = where(b)
    def ev(c):
        e = events(c); return None if e == 'connect' else e
    I = Interp(F, events=ev, opaque=lambda c: False, models={**domain.MODELS, **MODELS}, maxev=12)
    res = I.run(b, [tok('self')]); rep.count('paths', len(res)); rep.count('obligations'); rep.count('steps', I.steps); seen = set()
    for s, rv in res:
        r = I.render(s, rv); evs = [(e.label, e.args, f"{e.label}#{e.k}") for e in s.events]; ok = r.startswith('Ok(')
        first = next((v for k, v in s.facts.items() if re.fullmatch(r'OnceCell::get(_mut)?\(self\.connection\)', k)), None)
        path = s.facts.get('self.path')
        if first == 'Some':
            seen.add('connected')
            if evs: rep.bad('connect:again', f"connect on a connected cache does {evs[0][0]} again", w)
            if not ok: rep.bad('connect:again:err', 'connect on a connected cache fails', w)
            continue
        for l, a, n in evs:
            if l.startswith('fs_') and l not in ('fs_exists', 'fs_try_exists', 'fs_create_new', 'fs_metadata', 'fs_create_dir_all'): rep.bad('connect:fs:' + l, f"connect does {l[3:]} to {a[:1]}: a database that exists must be left as it is", w)
        for l, a, n in evs:
            if l.startswith('fs_') and a and 'self.path.Path.0' in str(a[0]):
                pre = s.facts.get("strip_prefix(self.path.Path.0,'file://')") or {True: 'Some', False: 'None'}.get(s.facts.get("is(strip_prefix(self.path.Path.0,'file://'),Some)"))
                want = {'Some': "strip_prefix(self.path.Path.0,'file://').Some.0", 'None': 'self.path.Path.0'}.get(pre)
                if want is None and str(a[0]) == 'self.path.Path.0' or want and str(a[0]) != want: rep.bad('connect:file', f"connect looks for the database at {a[0]}: a file:// path names the file after the prefix", w)
        failed = [n for l, a, n in evs if l in ('establish', 'sql_execute', 'sql_batch_execute') and s.facts.get(n) == 'Err']
        sets = [(i, a) for i, (l, a, n) in enumerate(evs) if l == 'cell_set']
        est = [(i, a, n) for i, (l, a, n) in enumerate(evs) if l == 'establish']; sq = [(i, a, n) for i, (l, a, n) in enumerate(evs) if l.startswith('sql_')]
        if not ok:
            if sets: rep.bad('connect:failed', 'connect fails but keeps the connection: the next use takes it for initialised', w)
            continue
        if failed: rep.bad('connect:swallow', f"connect succeeds although {failed[0]} failed", w); continue
        seen.add(path)
        if len(est) != 1: rep.bad('connect:establish', f"connect establishes {len(est)} connections", w); continue
        want = {'Memory': "':memory:'", 'Path': 'self.path.Path.0'}.get(path)
        if want and str(est[0][1][0]) != want: rep.bad('connect:where', f"connect for a {path} cache opens {est[0][1][0]}, not {want}", w)
        good = False
        for i, a, n in sq:
            m = re.search(r"sql_query\((['\"])(.*)\1\)", str(a[0]), re.S) or re.fullmatch(r"(['\"])(.*)\1", str(a[0]), re.S)
            if not m: rep.note(f"connect: a statement that was not read: {str(a[0])[:80]}"); good = True; continue
            q = eval(m.group(1) + m.group(2) + m.group(1), {'__builtins__': {}}) if '\n' not in m.group(2) else m.group(2)
            if re.match(r'\s*pragma', q, re.I): continue
            bad = ddl(q)
            if bad: rep.bad('connect:ddl', f"connect runs {q[:60]!r}: {bad}", w)
            elif s.facts.get(n) != 'Ok': rep.bad('connect:ddl:unchecked', 'connect ignores whether the table could be created', w)
            good = True
        if not good: rep.bad('connect:ddl', 'connect does not make sure that the table exists' + (' when the file does' if any(s.facts.get(n + '.Ok.0') is True for l, a, n in evs if l == 'fs_exists') else ''), w)
        if len(sets) != 1 or est[0][2] not in str(sets[0][1][1]) and 'sql_' not in str(sets[0][1][1]): 
            if not any('get_or_init' in k for k in s.facts) and 'get_or_init' not in r: rep.bad('connect:keep', 'connect does not keep the connection it made', w)
    for x in ('connected', 'Memory', 'Path'):
        if x not in seen: rep.bad('connect:never:' + x, f"connect never succeeds for {x}", w)

# ------------------------------------------------------------------ the rest
from spec import Err
def CACHE_READ(c):
    lk = 'Mutex::lock(self.0)'
    if not c.ok(lk): return lambda g: g.startswith('Err(')
    return f"InnerCache::read({lk}.Ok.0,cat,key)"
def CACHE_WRITE(c):
    lk = 'Mutex::lock(self.0)'
    if not c.ok(lk): return lambda g: g.startswith('Err(')
    return f"InnerCache::write({lk}.Ok.0,cat,key,value)"
def AS_STR(c):
    return "':memory:'" if c.choose('self', ['Memory', 'Path']) == 'Memory' else 'self.Path.0'
def AS_PATH(c):
    if c.choose('self', ['Memory', 'Path']) == 'Memory': return 'None'
    t = "strip_prefix(self.Path.0,'file://')"
    return f"Some({t}.Some.0)" if c.is_some(t) else 'Some(self.Path.0)'
def FROM(c): return ['CachePath::Memory', 'Memory'] if c.eq("':memory:'", 'x') else ['CachePath::Path(x)', 'Path(x)']
def FROM_STR(c): return ['Ok(CachePath::Memory)', 'Ok(Memory)'] if c.eq("':memory:'", 'x') else ['Ok(CachePath::Path(x))', 'Ok(Path(x))']
