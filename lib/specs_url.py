"""Specifications of the URL wrapper: host details, part accessors, setters, and the coherence of url and host details."""
from spec import Err, Any, Ret, Bad, joined as text_joined, text
import re
# ------------------------------------------------------------------ host details
def offset(c, part, d):
    """Where the tail `part` (a term of type Option<&str>) of `d` starts."""
    if not c.some(part): return ['None']
    return [f"Some(Sub(str::as_ptr({part}.Some.0),str::as_ptr({d})))", f"Some(Sub(len({d}),len({part}.Some.0)))"]
def domain_details(c, d):
    f = f"strip_suffix({d},'.')"
    fq = ['None'] if not c.some(f) else [f"Some(len({f}.Some.0))", f"Some(Sub(len({d}),1))"]
    ms = offset(c, f"psl::domain_str({d})", d); ss = offset(c, f"psl::suffix_str({d})", d)
    return [f"DomainDetails{{fqdn_period={a},middle_start={b},suffix_start={e}}}" for a in fq for b in ms for e in ss]
def host_details(c, h):
    """Details of a `Host` term: all spellings."""
    k = c.choose(h, ['Domain', 'Ipv4', 'Ipv6'])
    if k == 'Domain': return [f"HostDetails::Domain({x})" for x in domain_details(c, h + '.Domain.0')]
    return [f"HostDetails::{k}({k}Details)"]
def url_details(c, u):
    h = f"Url::host({u})"
    return [f"Some({x})" for x in host_details(c, h + '.Some.0')] if c.some(h) else ['None']
def FROM_HOST(c): return host_details(c, 'host')
def FROM_HOST_STR(c): return [f"Ok({x})" for x in host_details(c, c.try_('Host::parse(host)'))]
def FROM_DOMAIN_UNCHECKED(c): return domain_details(c, 'd')
def FROM_DOMAIN_STR(c):
    h = c.try_('Host::parse(d)')
    if c.choose(h, ['Domain', 'Ipv4', 'Ipv6']) != 'Domain': return Err('InvalidDomain')
    return [f"Ok({x})" for x in domain_details(c, 'd')]
def wrap(f, v): return lambda c: [f"HostDetails::{v}({x})" for x in f(c)]

# ------------------------------------------------------------------ bounds and accessors
def minus1(c, o):
    """The period in front of a known start, if there is one."""
    if not c.some(o): return None
    t = f"num::checked_sub({o}.Some.0,1)"
    return t + '.Some.0' if c.some(t) else None
def to_end(c, dd): return f"Excluded({dd}.fqdn_period.Some.0)" if c.some(dd + '.fqdn_period') else 'Unbounded'
def bounds(c, dd, part):
    ms, ss = dd + '.middle_start', dd + '.suffix_start'
    if part == 'domain': return f"(Unbounded,{to_end(c, dd)})"
    if part in ('subdomain', 'not_domain_suffix'):
        x = minus1(c, ms if part == 'subdomain' else ss); return None if x is None else f"(Unbounded,Excluded({x}))"
    if part == 'domain_middle':
        if not c.some(ms): return None
        x = minus1(c, ss); return None if x is None else f"(Included({ms}.Some.0),Excluded({x}))"
    o = ms if part == 'reg_domain' else ss
    return f"(Included({o}.Some.0),{to_end(c, dd)})" if c.some(o) else None
def BOUNDS(part):
    def f(c):
        b = bounds(c, 'self', part)
        return b if part == 'domain' else 'None' if b is None else f"Some({b})"
    return f
PARTS = ['domain', 'subdomain', 'not_domain_suffix', 'domain_middle', 'reg_domain', 'domain_suffix']
def spellings(hs, b):
    out = [f"str::get({hs},{b})"]
    m = re.match(r'^\((Unbounded|Included\((.*)\)),(Unbounded|Excluded\((.*)\))\)$', b)
    if m:
        lo, hi = m.group(2), m.group(4)
        out.append(f"str::get({hs}," + (f"Range{{end={hi},start={lo}}}" if lo and hi else f"RangeFrom{{start={lo}}}" if lo else f"RangeTo{{end={hi}}}" if hi else 'RangeFull') + ')')
        if not lo and not hi: out.append(f"Some({hs})")
    return out
def ACCESSOR(part):
    """The slice of the host the details delimit; absent when there is no host, no domain, or no such part."""
    def f(c):
        dd = domain_of(c)
        if dd is None or not c.some('Url::host_str(self)'): return 'None'
        hs = 'Url::host_str(self).Some.0'
        if part == 'fqdn_period':
            if not c.some(dd + '.fqdn_period'): return 'None'
            return [f"str::get({hs},RangeFrom{{start={dd}.fqdn_period.Some.0}})", f"str::get({hs},(Included({dd}.fqdn_period.Some.0),Unbounded))", "Some('.')"]
        b = bounds(c, dd, part)
        return 'None' if b is None else spellings(hs, b)
    return f
def domain_of(c, s='self'):
    if not c.some(s + '.host_details'): return None
    if c.choose(s + '.host_details.Some.0', ['Domain', 'Ipv4', 'Ipv6']) != 'Domain': return None
    return s + '.host_details.Some.0.Domain.0'
def fqdn(c, dd): return c.is_some(dd + '.fqdn_period')

# ------------------------------------------------------------------ setters
def call(c, label, *args):
    """An opaque setter on the URL; its result."""
    s = c.S['self']; t = f"BetterUrl::{label}({s}" + ''.join(',' + a for a in args) + ')'
    c.S['self'] = t + '!'
    return t
def join(*ps):
    ps = [p for p in ps if p is not None]; out = []
    for i, p in enumerate(ps):
        if i: out.append("'.'")
        out.append(p)
    return out
def finish(c, t):
    r = c.ok(t)
    return [f"Ok({t}.Ok.0)", 'Ok(())'] if r else Err(t + '.Err.0')
def setter(before, after, missing, getter):
    """Replace one run of labels: `before` and `after` are the parts that stay; a required neighbour that is absent is an error."""
    def f(c):
        dd = domain_of(c)
        if dd is None: return Err('HostIsNotADomain')
        opt = lambda p: None if p is None else (f"BetterUrl::{p}(self).Some.0" if c.some(f"BetterUrl::{p}(self)") else None)
        b, a = opt(before), opt(after)
        to = 'to.Some.0' if c.some('to') else None
        if to is not None and after is not None and a is None: return Err(missing)
        fq = fqdn(c, dd)
        return finish(c, call(c, 'set_domain_host', text(*join(b, to, a), *(["'.'"] if fq else []))))
    return f
SET_SUBDOMAIN = setter(None, 'reg_domain', 'MissingRegDomain', None)
SET_NOT_DOMAIN_SUFFIX = setter(None, 'domain_suffix', 'MissingDomainSuffix', None)
SET_DOMAIN_MIDDLE = setter('subdomain', 'domain_suffix', 'MissingDomainSuffix', None)
SET_REG_DOMAIN = setter('subdomain', None, None, None)
SET_DOMAIN_SUFFIX = setter('not_domain_suffix', None, None, None)
def SET_DOMAIN(c):
    if not c.some('to'): return finish(c, call(c, 'set_host', c.alias('BetterUrl::set_host(self,to)', 'BetterUrl::set_host(self,None)')[len('BetterUrl::set_host(self,'):-1]))
    dd = domain_of(c)
    return finish(c, call(c, 'set_domain_host', text('to.Some.0', *(["'.'"] if dd and fqdn(c, dd) else []))))
def SET_FQDN(c):
    if not c.some('self.host_details'): return Err('NoHost')
    dd = domain_of(c)
    if dd is None: return Err('HostIsNotADomain')
    to = c.truth('to')
    if fqdn(c, dd) == to: return 'Ok(())'
    hs = 'Url::host_str(self)'
    if not c.some(hs): return Any()
    x = hs + '.Some.0'
    if to: arg = text(x, "'.'")
    else:
        p = f"strip_suffix({x},'.')"
        if not c.some(p): return Any()
        arg = p + '.Some.0'
    return finish(c, call(c, 'set_host', f"Some({arg})"))
def fields(c, **want):
    """The final fields of the URL wrapper; a field not named stays."""
    v = c.I.get_root(c.st, ('T', 'self')); got = {}
    if v[0] == 'rec' and v[1] == 'self': got = {k: c.I.render(c.st, x) for k, x in v[2]}
    elif v != ('tok', 'self'): raise Bad(f"self becomes `{c.I.render(c.st, v)[:200]}`")
    for k in set(got) | set(want):
        w = want.get(k, [f"self.{k}"]); w = w if isinstance(w, list) else [w]
        if got.get(k, f"self.{k}") not in w: raise Bad(f"final self.{k} is `{got.get(k, 'unchanged')[:300]}`, required `{w[0]}`")
    c.S['self'] = c.I.render(c.st, ('tok', 'self'))
def plain(name, *args, err=None):
    """Forwards to the url crate and leaves the details alone (the host does not change)."""
    def f(c):
        t = f"Url::{name}(self.url" + ''.join(',' + a for a in args) + ')'
        fields(c, url=t + '!')
        if err is None: return lambda got: True
        return ['Ok(())', f"Ok({t}.Ok.0)"] if c.ok(t) else Err(err)
    return f
def host_setter(name, arg, err, pre=None):
    def f(c):
        if pre:
            r = pre(c)
            if r is not None: fields(c); return r
        t = f"Url::{name}(self.url,{arg})"
        if c.ok(t):
            fields(c, url=t + '!', host_details=url_details(c, t + '!')); return 'Ok(())'
        fields(c, url=t + '!'); return Err(err or t + '.Err.0')
    return f
def only_domain(c):
    h = 'Host::parse(d)'
    if not c.ok(h) or c.choose(h + '.Ok.0', ['Domain', 'Ipv4', 'Ipv6']) != 'Domain': return Err('ProvidedHostIsNotADomain')
    # the details of the parsed host may be looked at before they are known to belong to a domain
    return None
B = 'types::better_url::BetterUrl::'; H = 'types::better_url::host_details::HostDetails::'; D = 'types::better_url::host_details::domain::DomainDetails::'
DETAILS = [(H + 'from_host', ['host'], FROM_HOST), (H + 'from_host_str', ['host'], FROM_HOST_STR), (D + 'from_domain_str_unchecked', ['d'], FROM_DOMAIN_UNCHECKED), (D + 'from_domain_str', ['d'], FROM_DOMAIN_STR),
           (H + 'from_domain_str_unchecked', ['d'], wrap(FROM_DOMAIN_UNCHECKED, 'Domain'))] \
        + [(D + p + '_bounds', ['self'], BOUNDS(p)) for p in PARTS] + [(B + p, ['self'], ACCESSOR(p)) for p in PARTS + ['fqdn_period']]
SETTERS = [(B + 'set_subdomain', ['self', 'to'], SET_SUBDOMAIN), (B + 'set_not_domain_suffix', ['self', 'to'], SET_NOT_DOMAIN_SUFFIX), (B + 'set_domain_middle', ['self', 'to'], SET_DOMAIN_MIDDLE),
           (B + 'set_reg_domain', ['self', 'to'], SET_REG_DOMAIN), (B + 'set_domain_suffix', ['self', 'to'], SET_DOMAIN_SUFFIX), (B + 'set_domain', ['self', 'to'], SET_DOMAIN), (B + 'set_fqdn', ['self', 'to'], SET_FQDN)]
RAW = [(B + 'set_host', ['self', 'host'], host_setter('set_host', 'host', None)), (B + 'set_ip_host', ['self', 'a'], host_setter('set_ip_host', 'a', 'SetIpHostError')),
       (B + 'set_domain_host', ['self', 'd'], host_setter('set_host', 'Some(d)', None, only_domain)),
       (B + 'set_scheme', ['self', 'x'], plain('set_scheme', 'x', err='SetSchemeError')), (B + 'set_username', ['self', 'x'], plain('set_username', 'x', err='SetUsernameError')),
       (B + 'set_password', ['self', 'x'], plain('set_password', 'x', err='SetPasswordError')), (B + 'set_port', ['self', 'x'], plain('set_port', 'x', err='SetPortError')),
       (B + 'set_path', ['self', 'x'], plain('set_path', 'x')), (B + 'set_query', ['self', 'x'], plain('set_query', 'x')), (B + 'set_fragment', ['self', 'x'], plain('set_fragment', 'x'))]

# ------------------------------------------------------------------ coherence of url and host details, whatever the function
KEEPS_HOST = {'set_scheme', 'set_username', 'set_password', 'set_port', 'set_path', 'set_query', 'set_fragment', 'query_pairs_mut', 'path_segments_mut'}
def chain(t):
    """`Url::set_x(base,..)!` -> (base, set_x, call term); None when it is not such a call."""
    m = re.match(r'^(Url::(\w+)\((.*)\))!$', t, re.S)
    if not m: return None
    d = 0; base = ''
    for ch in m.group(3):
        if ch in '([{': d += 1
        elif ch in ')]}': d -= 1
        if ch == ',' and d == 0: break
        base += ch
    return base, m.group(2), m.group(1)
def same_host(c, u):
    """Every earlier state of the url with the same host as `u`."""
    out = [u]
    while True:
        x = chain(out[-1])
        if x is None or not (x[1] in KEEPS_HOST or c.fact(x[2]) == 'Err'): return out
        out.append(x[0])
def check_pair(c, base, u, d, what):
    hosts = same_host(c, u)
    if base is not None and f"{base}.url" in hosts and d == f"{base}.host_details": return
    for h in hosts:
        if d in url_details(c, h): return
        for h2 in ([h + '.0'] if False else []): pass
    raise Bad(f"{what}: the host details are `{d[:200]}` but the url is `{u[:200]}`")
def COHERENT(c):
    """After every path, the host details are those of the url's current host."""
    I, st = c.I, c.st
    def walk(v, depth=0):
        if depth > 6: return
        if v[0] == 'rec':
            ov = dict(v[2])
            if set(ov) & {'url', 'host_details'} and set(ov) <= {'url', 'host_details'}:
                r = lambda k: I.render(st, ov[k]) if k in ov else f"{v[1]}.{k}"
                check_pair(c, v[1], r('url'), r('host_details'), f"`{v[1]}`")
            for x in ov.values(): walk(x, depth + 1)
        elif v[0] == 'adt':
            if v[1].endswith('::BetterUrl'):
                fs = {f['n']: I.render(st, x) for f, x in zip(I.F.adts[v[1]]['variants'][0]['f'], v[3])}
                base = fs['url'][:-4] if fs['url'].endswith('.url') else None
                check_pair(c, base, fs['url'], fs['host_details'], 'a new value')
            else:
                for x in v[3]: walk(x, depth + 1)
        elif v[0] in ('tuple', 'vec', 'array'):
            for x in v[1]: walk(x, depth + 1)
        elif v[0] == 'ref' and v[2] and v[1][0] == 'T' and depth < 2 and v is not st:
            pass
    for root, v in list(st.mem.items()):
        if root[0] == 'T': walk(v)
    walk(c.rv)
    return Any()
ANYWAY = lambda c: Any()
