"""Specifications of the smaller parts: flag and variable stores, tasks, error filters, HTTP client configuration, diffs, maps."""
import re
from spec import Err, Any, Ret, Bad
from domain import split_args
def found(t):
    """Ok(the entry of a map lookup, present or absent)."""
    return lambda c: 'Ok(None)' if not c.some(t) else f"Ok(Some({t}.Some.0))"
# ------------------------------------------------------------------ flags and variables
STORES = {'Params': 'params', 'JobContext': 'job_context', 'TaskContext': 'context', 'Scratchpad': 'scratchpad'}
def flag(store):
    def f(c):
        if store == 'Common':
            if not c.some('ts.common_args'): return Err('NotInCommonContext')
            s = 'ts.common_args.Some.0.flags'
        else: s = f"ts.{STORES[store]}.flags"
        return c.bool(c.contains(s, 'name'))
    return f
def var(store):
    def f(c):
        if store == 'Env':
            t = 'env::var(name)'
            if c.ok(t): return f"Ok(Some({t}.Ok.0))"
            return 'Ok(None)' if c.choose(t + '.Err.0', ['NotPresent', 'NotUnicode']) == 'NotPresent' else Err('EnvVarIsNotUtf8')
        if store == 'Common':
            if not c.some('ts.common_args'): return Err('NotInCommonContext')
            s = 'ts.common_args.Some.0.vars'
        else: s = f"ts.{STORES[store]}.vars"
        return found(f"HashMap::get({s},name)")(c)
    return f
FLAG = {s: flag(s) for s in ('Params', 'Scratchpad', 'Common')}
VAR = {s: var(s) for s in ('Params', 'JobContext', 'TaskContext', 'Common', 'Scratchpad', 'Env')}
def ref(label):
    def f(c): n = c.get_str('self.name'); return c.ev(label, 'self.type', c.state(), n)
    return f
FLAG_REF = ref('FlagType::get'); VAR_REF = ref('VarType::get')
# ------------------------------------------------------------------ common call arguments
def ARGS(c):
    fl = list(c.iter('self.flags')); vs = []
    for v in c.iter('self.vars'): vs.append(f"({v}.0,{c.get_str(v + '.1')})")
    return f"Ok(CommonCallArgs{{flags=vec[{','.join(fl)}],vars=vec[{','.join(vs)}]}})"
# ------------------------------------------------------------------ error filters
def FILTER(c):
    if not c.some('self.0'): return 'true'
    v = c.fact('error')
    if v is None: raise Bad('the kind of error is not consulted')
    n = 'ConditionErrorNames::' + v; t = c.alias(*(f"HashSet::contains({s},{n})" for s in ('self.0', 'self.0.Some.0')))
    return 'true' if c.truth(t) else 'false'
def IF_ERROR(c):
    if c.ok('x'): return 'Ok(x.Ok.0)'
    return {'Pass': 'Ok(true)', 'Fail': 'Ok(false)', 'Error': Err('x.Err.0')}[c.choose('self', ['Pass', 'Fail', 'Error'])]
# ------------------------------------------------------------------ tasks
def NEW_TASK(c): return 'Task{cache=self.cache,config=self.config,context=tc.context,job_context=jc,url=tc.url}'
def TASK_DO(c):
    r = c.ev('Rules::apply', 'self.config.rules', tuple(sorted(dict(url='self.url', scratchpad='JobScratchpad{flags=vec[],vars=vec[]}', common_args='None', context='self.context', job_context='self.job_context',
                                                                    params='self.config.params', commons='self.config.commons', cache='self.cache').items())), mut=('url',))
    c.try_(r)
    return f"Ok(self.{c.S['url'].split('.', 1)[1]})"
def FROM_STR(c):
    t = "de::from_str(s)" if starts(c, 's', '{"') else 'Url::parse(s)'
    if not c.ok(t): return Err(t + '.Err.0')
    return f"Ok({t}.Ok.0)" if t[0] == 'd' else f"Ok(TaskConfig{{context=TaskContext{{vars=vec[]}},url=BetterUrl::from({t}.Ok.0)}})"
def starts(c, s, chars):
    """Does `s` start with one of these characters?"""
    ks = [f"is(strip_prefix({s},'{x}'),Some)" for x in chars]
    if any(c.fact(k) is True for k in ks): return True
    for one in (f"str::chars({s})", s):      # the first character or byte, looked at directly
        if c.fact(f"has({one},0)") is False: return False
        if c.fact(f"has({one},0)") is True:
            e = f"{one}[0]"; n = c.fact(e); no = c.st.facts.get('¬' + e) or ()
            if n is not None: return n in map(ord, chars)
            return any(c.truth(f"eq({ord(x)},{e})" if c.fact(f"eq({ord(x)},{e})") is not None else f"eq({e},{ord(x)})") for x in chars if ord(x) not in no)
    return any(c.truth(k) for k in ks)
def TO_VIEW(c): return lambda g: g == 'TaskStateView{' + ','.join(f"{f}=self.{f}" for f in sorted(('url', 'scratchpad', 'common_args', 'context', 'job_context', 'params', 'commons', 'cache'))) + '}'
def JOB_ITEM(n):
    def sp(c):
        """What the nth call of next() on Job::iter() gives."""
        src = 'self.task_configs_source'
        for i in range(n):
            if not c.truth(f"has({src},{i})"): return 'None'
        x = f"{src}[{n}]"
        if not c.truth(f"has({src},{n})"): return 'None'
        if c.ok(x): return f"Some(Ok(Task{{cache=self.config.cache,config=self.config.config,context={x}.Ok.0.context,job_context=self.context,url={x}.Ok.0.url}}))"
        return f"Some(Err(MakeTaskError::MakeTaskConfigError({x}.Err.0)))"
    return sp
# ------------------------------------------------------------------ maps
def MAP_GET(c):
    if c.some('v'):
        t = 'HashMap::get(self.map,v.Some.0)'
        return lambda g: _opt(c, t, g)
    return lambda g: _opt(c, 'self.if_null', g)
def _opt(c, t, g):
    """`t` when present, else the `else` entry."""
    if c.fact(t) == 'Some': return g in (f"Some({t}.Some.0)", t)
    if c.fact(t) == 'None': return g in ('self.else', f"Some({c.norm_tok('self.else.Some.0')})") if c.fact('self.else') != 'None' else g == 'None'
    return False
# ------------------------------------------------------------------ HTTP client
def unchain(t, typ):
    """`T::a(T::b(base,x),y)` as (base, [('b', ['x']), ('a', ['y'])])."""
    out = []
    while t.startswith(typ + '::') and t.endswith(')'):
        n, a = t[len(typ) + 2:-1].split('(', 1); a = split_args(a); out.append((n, a[1:])); t = a[0]
    return t, out[::-1]
def client(c):
    want = [('default_headers', ['self.default_headers']), ('https_only', ['self.https_only']), ('referer', ['self.referer'])]
    p = c.choose('self.redirect_policy', ['Limited', 'None'])
    want.append(('redirect', ['Policy::limited(self.redirect_policy.Limited.0)' if p == 'Limited' else 'Policy::none()']))
    def proxies():
        for x in c.iter('self.proxies'):
            kind = c.choose(x + '.mode', ['Http', 'Https', 'All'])
            t = f"Proxy::{kind.lower()}({x}.url)"
            if not c.ok(t): raise Ret(Err(t + '.Err.0'))
            t += '.Ok.0'
            if c.some(x + '.auth'):
                a = x + '.auth.Some.0'
                if c.choose(a, ['Basic', 'Custom']) == 'Basic': t = f"Proxy::basic_auth({t},{a}.Basic.username,{a}.Basic.password)"
                else: t = f"Proxy::custom_http_auth({t},{a}.Custom.0)"
            want.append(('proxy', [t]))
    def certificates():
        for x in c.iter('self.extra_certificates'):
            t = f"Certificate::from_pem({x})"
            if not c.ok(t): raise Ret(Err(t + '.Err.0'))
            want.append(('add_root_certificate', [t + '.Ok.0']))
    c.par(proxies, certificates)      # which of two failing steps is reported is left open
    if c.truth('self.no_proxy'): want.append(('no_proxy', []))
    def agrees(g):
        if not (g.startswith('ClientBuilder::build(') and g.endswith(')')): return False
        base, got = unchain(g[len('ClientBuilder::build('):-1], 'ClientBuilder')
        if base not in ('Client::builder()', 'ClientBuilder::new()'): return False
        ns = [n for n, _ in got]
        if 'no_proxy' in ns and 'proxy' in ns[ns.index('no_proxy'):]: return False
        return sorted(map(str, got)) == sorted(map(str, want)) and [x for x in got if x[0] == 'proxy'] == [x for x in want if x[0] == 'proxy']
    return agrees
def VIEW_CLIENT(c):
    if c.some('diff'): cfg = 'HttpClientConfigDiff::apply(diff.Some.0,ts.params.http_client_config)!'
    else: cfg = 'ts.params.http_client_config'
    return lambda g: g == f"HttpClientConfig::make({cfg}" + ('1)' if cfg.endswith('!') else ')')
def effects(base, *fx): return base + ''.join(fx)
def fields(c, root, d):
    """The required final value of a struct: only the changed fields are written down, as the interpreter renders them."""
    ch = {k: v for k, v in d.items() if v != f"{root}.{k}"}
    return root + ('{' + ','.join(f"{k}:={ch[k]}" for k in sorted(ch)) + '}' if ch else '')
def CLIENT_DIFF(c):
    d = {}
    for f in ('redirect_policy', 'https_only', 'no_proxy', 'referer'):
        if c.some('self.' + f): d[f] = f"self.{f}.Some.0"
    p = 'self.set_proxies.Some.0' if c.some('self.set_proxies') else 'to.proxies'
    d['proxies'] = p + ''.join(f"+[{x}]" for x in c.iter('self.add_proxies'))
    d['default_headers'] = lambda g: re.fullmatch(r'HeaderMap::extend\(to\.default_headers,self\.add_default_headers\)!\d*', g)
    d['extra_certificates'] = 'to.extra_certificates' + ''.join(f"+{{{x}}}" for x in c.iter('self.add_extra_certificates')) + ''.join(f"-{{{x}}}" for x in c.iter('self.remove_extra_certificates'))
    return struct(c, 'to', d)
def rend(c, t): return c.I.render(c.st, ('tok', t))
def struct(c, root, d):
    """Compare the final value of `root` with `d` field by field; fields not mentioned must be untouched."""
    got = parse_struct(rend(c, root), root)
    for k in sorted(set(got) | set(d)):
        w = d.get(k, f"{root}.{k}"); g = got.get(k, f"{root}.{k}")
        if callable(w):
            if not w(g): raise Bad(f"{root}.{k} becomes `{g[:200]}`")
        elif g != w and g not in (w if isinstance(w, (list, tuple)) else (w,)): raise Bad(f"{root}.{k} becomes `{g[:200]}`, required `{w}`")
    return '()'
def parse_struct(t, root):
    if t == root: return {}
    if not (t.startswith(root + '{') and t.endswith('}')): raise Bad(f"{root} becomes `{t[:200]}`")
    out = {}
    for p in split_args(t[len(root) + 1:-1]):
        k, v = p.split(':=', 1); out[k] = v
    return out
def MAP_DIFF(c):
    v = 'to.map' + ''.join(f"+{{{x}.0={x}.1}}" for x in c.iter('self.insert_into_map')) + ''.join(f"-{{{x}}}" for x in c.iter('self.remove_from_map'))
    return struct(c, 'to', {'map': v})
# ------------------------------------------------------------------ params diffs
SLOTS = ('flags', 'unflags', 'vars', 'unvars', 'init_sets', 'insert_into_sets', 'remove_from_sets', 'delete_sets', 'init_maps', 'map_diffs', 'delete_maps')
SCALARS = ('read_cache', 'write_cache', 'http_client_config_diff')
GROUPS = (('flags', 'unflags'), ('vars', 'unvars'), ('init_sets', 'insert_into_sets', 'remove_from_sets', 'delete_sets'), ('init_maps', 'map_diffs', 'delete_maps'), SCALARS)
def without(keep):
    return {**{f"has(self.{x},0)": False for x in SLOTS if x not in keep}, **{f"self.{x}": 'None' for x in SCALARS if x not in keep}}
def PARAMS_DIFF(c):
    d = {}; sub = {}
    d['flags'] = 'to.flags' + ''.join(f"+{{{x}}}" for x in c.iter('self.flags')) + ''.join(f"-{{{x}}}" for x in c.iter('self.unflags'))
    d['vars'] = 'to.vars' + ''.join(f"+{{{x}.0={x}.1}}" for x in c.iter('self.vars')) + ''.join(f"-{{{x}}}" for x in c.iter('self.unvars'))
    s = 'to.sets' + ''.join(f"~{{{x}}}" for x in c.iter('self.init_sets'))
    for x in c.iter('self.insert_into_sets'):
        s += f"~{{{x}.0}}"; n = f"to.sets[{x}.0]"; sub[n] = sub.get(n, n) + ''.join(f"+{{{y}}}" for y in c.iter(x + '.1'))
    for x in c.iter('self.remove_from_sets'):
        if c.some(f"HashMap::get({s},{x}.0)"): n = f"to.sets[{x}.0]"; sub[n] = sub.get(n, n) + ''.join(f"-{{{y}}}" for y in c.iter(x + '.1'))
    d['sets'] = s + ''.join(f"-{{{x}}}" for x in c.iter('self.delete_sets'))
    s = 'to.maps' + ''.join(f"~{{{x}}}" for x in c.iter('self.init_maps')); m = {}
    for x in c.iter('self.map_diffs'):
        s += f"~{{{x}.0}}"; n = f"to.maps[{x}.0]"
        m[n] = m.get(n, n + '.map') + ''.join(f"+{{{y}.0={y}.1}}" for y in c.iter(x + '.1.insert_into_map')) + ''.join(f"-{{{y}}}" for y in c.iter(x + '.1.remove_from_map'))
    d['maps'] = s + ''.join(f"-{{{x}}}" for x in c.iter('self.delete_maps'))
    for f in ('read_cache', 'write_cache'):
        if c.some('self.' + f): d[f] = f"self.{f}.Some.0"
    if c.some('self.http_client_config_diff'):
        d['http_client_config'] = lambda g: re.fullmatch(r'HttpClientConfigDiff::apply\(self\.http_client_config_diff\.Some\.0,to\.http_client_config\)!\d*', g)
    for n, w in sub.items():
        g = rend(c, n)
        if g != w: raise Bad(f"{n} becomes `{g[:200]}`, required `{w}`")
    for n, w in m.items(): struct(c, n, {'map': w})
    return struct(c, 'to', d)
# ------------------------------------------------------------------ command line arguments -> params diff
ARG_SLOTS = ('flag', 'unflag', 'var', 'unvar', 'insert_into_set', 'remove_from_set', 'insert_into_map', 'remove_from_map')
ARG_SCALARS = ('read_cache', 'write_cache', 'proxy', 'no_proxy')
def without_args(keep): return {**{f"has(self.{x},0)": False for x in ARG_SLOTS if x not in keep}, **{f"self.{x}": 'None' for x in ARG_SCALARS if x not in keep}}
def struct_of(g, name):
    """Fields of a rendered struct literal."""
    if not (g.startswith(name + '{') and g.endswith('}')): raise Bad(f"a {name} is required, found `{g[:200]}`")
    return dict(p.split('=', 1) for p in split_args(g[len(name) + 1:-1]))
def elems(g):
    """Elements of a freshly built collection, as ('x',) or ('k', 'v'), and ('~k',) for entries made on demand."""
    out = []
    if g.startswith('vec[') and g.endswith(']'):
        for e in split_args(g[4:-1]): out.append(tuple(split_args(e[1:-1])) if e.startswith('(') and e.endswith(')') else (e,))
        return out
    m = re.match(r'new\d+', g)
    if not m: raise Bad(f"a new collection is required, found `{g[:200]}`")
    i = m.end()
    while i < len(g):
        j = i + 2; d = 1
        while d: d += {'{': 1, '[': 1, '(': 1, '}': -1, ']': -1, ')': -1}.get(g[j], 0); j += 1
        op, body = g[i], g[i + 2:j - 1]; i = j
        if op == '+': out.append(tuple(body.split('=', 1)) if g[i - len(body) - 2] == '{' and '=' in body else (body,))
        elif op == '~': out.append(('~' + body,))
        else: raise Bad(f"something is removed again: `{g[:200]}`")
    return out
def eff(g, base):
    """The additions to `base`, a sub-collection."""
    if not g.startswith(base): raise Bad(f"`{base}` becomes `{g[:200]}`")
    return elems('new0' + g[len(base):])
def NARGS(c, x, lo=0):
    n = lo
    while c.truth(f"has({x},{n})"):
        n += 1
        if n > c.I.maxlen + 2: break
    return n
def BUILD(c):
    d = {}
    W = 'ParamsDiffArgParserValueWrong::'
    def err(n): raise Ret(Err(W + n))
    d['flags'] = [(x,) for x in c.iter('self.flag')]; d['unflags'] = [(x,) for x in c.iter('self.unflag')]
    vs = []
    for x in c.iter('self.var'):
        n = NARGS(c, x)
        if n != 2: err({0: 'VarNoNameSpecified', 1: 'VarNoValueSpecified'}.get(n, 'VarTooManyArguments'))
        vs.append((f"{x}[0]", f"{x}[1]"))
    d['vars'] = vs; d['unvars'] = [(x,) for x in c.iter('self.unvar')]
    lists = {}
    for a, f, e in (('insert_into_set', 'insert_into_sets', 'InsertIntoSetsNoName'), ('remove_from_set', 'remove_from_sets', 'RemoveFromSetsNoName')):
        got = []
        for x in c.iter('self.' + a):
            n = NARGS(c, x)
            if n == 0: err(e)
            got.append((f"~{x}[0]",)); lists[f, f"{x}[0]"] = [(f"{x}[{j}]",) for j in range(1, n)]
        d[f] = got
    maps = []; md = {}
    for x in c.iter('self.insert_into_map'):
        n = NARGS(c, x)
        if n % 2 == 0: err('InsertIntoMap')
        maps.append((f"~{x}[0]",)); md[f"{x}[0]", 'insert_into_map'] = [(f"{x}[{j}]", f"{x}[{j + 1}]") for j in range(1, n, 2)]
    for x in c.iter('self.remove_from_map'):
        n = NARGS(c, x)
        if n == 0: err('RemoveFromMapNoMapSpecified')
        maps.append((f"~{x}[0]",)); md[f"{x}[0]", 'remove_from_map'] = [(f"{x}[{j}]",) for j in range(1, n)]
    d['map_diffs'] = maps
    for f in ('init_sets', 'delete_sets', 'init_maps', 'delete_maps'): d[f] = []
    def agrees(g):
        if not g.startswith('Ok('): return False
        got = struct_of(g[3:-1], 'ParamsDiff')
        for f in sorted(d):
            w = d[f]; e = elems(got.pop(f))
            if sorted(e) != sorted(w): raise Bad(f"{f} receives {e}, required {w}")
        for (f, k), w in lists.items():
            base = f"{new(g, f)}[{k}]"
            if (e := eff(rend(c, base), base)) != w and sorted(e) != sorted(w): raise Bad(f"the entry {k} of {f} receives {e}, required {w}")
        for (k, s), w in md.items():
            b0 = f"{new(g, 'map_diffs')}[{k}]"; fs = parse_struct(rend(c, b0), b0); base = f"{b0}.{s}"
            if (e := eff(fs.get(s, base), base)) != w: raise Bad(f"the entry {k} of map_diffs.{s} receives {e}, required {w}")
        for f in ('read_cache', 'write_cache'):
            if (x := got.pop(f)) not in (f"self.{f}", opt_fact(c, f"self.{f}")): raise Bad(f"{f} receives `{x}`")
        h = got.pop('http_client_config_diff')
        if got: raise Bad(f"additional fields {sorted(got)}")
        if h == 'None': return c.fact('self.proxy') == 'None' and c.fact('self.no_proxy') == 'None'
        hs = struct_of(h[5:-1], 'HttpClientConfigDiff')
        want = {'no_proxy': ('self.no_proxy', opt_fact(c, 'self.no_proxy')), 'set_proxies': ('Some(vec[self.proxy.Some.0])',) if c.some('self.proxy') else ('None',)}
        for f, v in hs.items():
            if f not in want: want[f] = ('None', 'vec[]', 'HeaderMap::default()', 'HeaderMap::new()')
            if v not in want[f]: raise Bad(f"http_client_config_diff.{f} receives `{v}`, required {want[f]}")
        return True
    return agrees
def opt_fact(c, t):
    f = c.fact(t); return 'None' if f == 'None' else f"Some({t}.Some.0)"
def new(g, f):
    m = re.search(r'[{,]' + f + r'=(new\d+)', g)
    if not m: raise Bad(f"{f} is not built")
    return m.group(1)
def DOES_ANYTHING(c):
    any_ = False
    for x in ARG_SLOTS: any_ = any_ or c.fact(f"has(self.{x},0)") is True
    for x in ARG_SCALARS: any_ = any_ or c.fact(f"self.{x}") == 'Some' or c.fact(f"is(self.{x},Some)") is True
    if any_: return 'true'
    for x in ARG_SLOTS:
        if c.fact(f"has(self.{x},0)") is None: raise Bad(f"the answer is given without looking at {x}")
    for x in ARG_SCALARS:
        if c.fact(f"self.{x}") is None and c.fact(f"is(self.{x},Some)") is None:
            return lambda g, x=x: g in (f"is(self.{x},Some)", f"!is(self.{x},None)")
    return 'false'
