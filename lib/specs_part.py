"""Specifications of reading and setting URL parts."""
from spec import Err, Any, Ret, Bad, joined as text_joined
from spec import text
GET, SET = {}, {}
def g(*names):
    def d(f):
        for n in names: GET[n] = f
        return f
    return d
def s(*names):
    def d(f):
        for n in names: SET[n] = f
        return f
    return d
def opt(c, t):
    """An optional value handed on."""
    return f"Some({t}.Some.0)" if c.some(t) else 'None'
def need(c, t):
    if not c.some(t): raise Ret('None')
    return t + '.Some.0'
# ------------------------------------------------------------------ get
@g('Debug')
def _(c): return opt(c, 'UrlPart::get(self.Debug.0,url)')
@g('Whole')
def _(c): return 'Some(url)'
for n, t in (('Scheme', 'Url::scheme'), ('Username', 'Url::username'), ('Path', 'Url::path')):
    GET[n] = lambda c, t=t: f"Some({t}(url))"
for n, t in (('Password', 'Url::password'), ('Host', 'Url::host_str'), ('Port', 'Url::port'), ('Query', 'Url::query'), ('Fragment', 'Url::fragment'), ('Domain', 'BetterUrl::domain'),
             ('Subdomain', 'BetterUrl::subdomain'), ('RegDomain', 'BetterUrl::reg_domain'), ('NotDomainSuffix', 'BetterUrl::not_domain_suffix'), ('DomainMiddle', 'BetterUrl::domain_middle'),
             ('DomainSuffix', 'BetterUrl::domain_suffix'), ('FqdnPeriod', 'BetterUrl::fqdn_period')):
    GET[n] = lambda c, t=t: opt(c, t + '(url)')
@g('HostWithoutWWWDotPrefixAndFqdnPeriod')
def _(c): return f"Some({bare(c, need(c, 'Url::host_str(url)'))})"
def bare(c, h):
    def cut(x, which, lit):
        t = f"strip_{which}({x},'{lit}')"; return t + '.Some.0' if c.some(t) else x
    return cut(cut(h, 'prefix', 'www.'), 'suffix', '.')
for n, t in (('DomainSegment', 'domain'), ('SubdomainSegment', 'subdomain'), ('DomainSuffixSegment', 'domain_suffix')):
    GET[n] = lambda c, n=n, t=t: opt(c, f"util::neg_nth(str::split({need(c, f'BetterUrl::{t}(url)')},'.'),self.{n}.0)")
@g('PathSegment')
def _(c):
    t = 'BetterUrl::path_segments(url)'
    return opt(c, f"util::neg_nth({t}.Ok.0,self.PathSegment.0)") if c.ok(t) else 'None'
@g('BeforeDomainSegment', 'AfterDomainSegment', 'NextDomainSegment', 'BeforeSubdomainSegment', 'AfterSubdomainSegment', 'NextSubdomainSegment', 'BeforeDomainSuffixSegment', 'AfterDomainSuffixSegment',
   'NextDomainSuffixSegment', 'BeforePathSegment', 'AfterPathSegment', 'NextPathSegment')
def _(c): return 'None'
def nth_named(c, src, name, index):
    """Position of the index-th pair called `name`: (position or None, pairs seen, matches seen)."""
    m = 0; seen = []
    for p in c.iter(src):
        seen.append(p)
        if c.eq(p + '.0', name):
            if c.eq(str(m), index): return len(seen) - 1, seen, m
            m += 1
    return None, seen, m
def QP_GET(c, src='Url::query_pairs(url)', q='self.QueryParam.0', wrap='{}'):
    i, seen, m = nth_named(c, src, q + '.name', q + '.index')
    return 'None' if i is None else f"Some({wrap.format(seen[i] + '.1', i=i)})"
@g('QueryParam')
def _(c): return QP_GET(c)
# ------------------------------------------------------------------ set
def put(c, t): c.S['purl'] = t + '!'; return t
def call(c, label, *a): return put(c, f"BetterUrl::{label}({','.join((c.S['purl'],) + a)})")
def to(c, missing):
    if not c.some('to'): raise Ret(Err(missing))
    return 'to.Some.0'
def done(c, t, *err): return 'Ok(())' if c.ok(t) else Err(*(err or (t + '.Err.0',)))
@s('Debug')
def _(c): return done(c, c.ev('UrlPart::set', 'self.Debug.0', c.S['purl'], opt_to(c), mut=('purl',)))
def opt_to(c): return lambda e: e == 'to' or c.fact('to') == 'Some' and e == 'Some(to.Some.0)' or c.fact('to') == 'None' and e == 'None'
@s('Whole')
def _(c):
    x = c.try_(f"Url::parse({to(c, 'WholeCannotBeNone')})")
    c.S['purl'] = f"BetterUrl::from({x})"; return 'Ok(())'
@s('Scheme')
def _(c): return done(c, call(c, 'set_scheme', to(c, 'SchemeCannotBeNone')), 'SetSchemeError')
@s('Username')
def _(c): return done(c, call(c, 'set_username', to(c, 'UsernameCannotBeNone')), 'SetUsernameError')
def spelled(c, v):
    """An Option handed on as it is or rebuilt."""
    f = c.fact('to')
    for x in (['to'] if v == 'to' else []) + ([f"Some({v}.Some.0)" if v == 'to' else v] if f == 'Some' else ['None'] if f == 'None' else []): yield x
def handed(c, label, *err):
    """The optional value goes to the setter of that name."""
    for x in (('to', 'Some(to.Some.0)', 'None')):
        t = f"BetterUrl::{label}({c.S['purl']},{x})"
        if t + '!' == c.I.render(c.st, ('tok', 'url')):
            if x == 'None' and c.some('to') or x.startswith('Some') and not c.some('to'): break
            return put(c, t)
    return put(c, f"BetterUrl::{label}({c.S['purl']},to)")
for n, l, e in (('Password', 'set_password', 'SetPasswordError'), ('Host', 'set_host', None), ('Domain', 'set_domain', None), ('Subdomain', 'set_subdomain', None), ('RegDomain', 'set_reg_domain', None),
                ('NotDomainSuffix', 'set_not_domain_suffix', None), ('DomainMiddle', 'set_domain_middle', None), ('DomainSuffix', 'set_domain_suffix', None)):
    SET[n] = lambda c, l=l, e=e: done(c, handed(c, l), *([e] if e else []))
for n, l in (('Query', 'set_query'), ('Fragment', 'set_fragment')):
    def f(c, l=l): handed(c, l); return 'Ok(())'
    SET[n] = f
@s('HostWithoutWWWDotPrefixAndFqdnPeriod')
def _(c): return done(c, call(c, 'set_host', f"Some({bare(c, 'to.Some.0')})" if c.some('to') else 'None'))
@s('FqdnPeriod')
def _(c):
    if not c.some('to'): return done(c, call(c, 'set_fqdn', 'false'))
    if not c.eq('to.Some.0', "'.'"): return Err('FqdnPeriodMustBeNoneOrPeriod')
    return done(c, call(c, 'set_fqdn', 'true'))
@s('Port')
def _(c):
    v = 'None'
    if c.some('to'):
        p = c.alias('str::parse(to.Some.0)', '<u16>::from_str(to.Some.0)')
        if not c.ok(p): return Err('InvalidPort')
        v = f"Some({p}.Ok.0)"
    return done(c, call(c, 'set_port', v), 'SetPortError')
@s('Path')
def _(c): call(c, 'set_path', to(c, 'PathCannotBeNone')); return 'Ok(())'
def relative(c, src, n, rel):
    """The segments after setting, removing or inserting at the n-th."""
    v = list(c.iter(src)); k = f"neg_index({n},{len(v)})"; p = c.fact(k)
    if p is None: raise Bad(f"{k} is not consulted")
    some = c.some('to')
    if p == 'None':
        if some: raise Ret(Err('SegmentNotFound'))
        return v
    p = int(p)
    if some:
        if rel == 'At': v[p] = 'to.Some.0'
        else: v.insert(p + (rel == 'After'), 'to.Some.0')
    elif rel == 'At': del v[p]
    return v
def joined(c, v, sep):
    """The joined segments, or None when that is empty."""
    j = text_joined(v, f"'{sep}'")
    return j, c.truth(f"eq(0,len({j}))") if len(v) == 1 else not v
for n, t, l, e in (('Domain', 'domain', 'set_domain', 'NoDomain'), ('Subdomain', 'subdomain', 'set_subdomain', 'NoSubdomain'), ('DomainSuffix', 'domain_suffix', 'set_domain_suffix', 'NoDomainSuffix')):
    for pre, rel in (('Before', 'Before'), ('', 'At'), ('After', 'After'), ('Next', 'After')):
        name = f"{pre}{n}Segment"
        def f(c, name=name, t=t, l=l, e=e, rel=rel, pre=pre):
            d = f"BetterUrl::{t}(url)"
            if not c.some(d): return Err(e)
            v = relative(c, f"str::split({d}.Some.0,'.')", '-1' if pre == 'Next' else f"self.{name}.0", rel)
            j, empty = joined(c, v, '.')
            return done(c, call(c, l, 'None' if empty else f"Some({j})"))
        SET[name] = f
for name, rel in (('BeforePathSegment', 'Before'), ('PathSegment', 'At'), ('AfterPathSegment', 'After')):
    def f(c, name=name, rel=rel):
        p = 'BetterUrl::path_segments(url)'
        if not c.ok(p): return Err('UrlDoesNotHavePathSegments')
        p += '.Ok.0'
        v = relative(c, p, f"self.{name}.0", rel)
        j, empty = joined(c, v, '/')
        if empty: return Err('PathCannotBeNone')
        call(c, 'set_path', text("'/'", j)); return 'Ok(())'
    SET[name] = f
@s('NextPathSegment')
def _(c):
    if not c.some('to'): return 'Ok(())'
    m = 'BetterUrl::path_segments_mut(url)'
    c.S['purl'] = Any()
    if not c.ok(m): raise Ret(Err('UrlDoesNotHavePathSegments'))
    c.ev('PathSegmentsMut::pop_if_empty'); c.ev('PathSegmentsMut::push', None, 'to.Some.0')
    return 'Ok(())'
def QP_SET(c, q='self.QueryParam.0'):
    src = f"Url::query_pairs({c.S['purl']})"
    i, seen, m = nth_named(c, src, q + '.name', q + '.index')
    pairs = list(c.iter(src))
    p = [(x + '.0', x + '.1') for x in pairs]
    if i is not None:
        if c.some('to'): p[i] = (p[i][0], 'to.Some.0')
        else: del p[i]
    elif c.some('to'):
        if not c.eq(str(m), q + '.index'): return Err('QueryParamIndexNotFound')
        p.append((q + '.name', 'to.Some.0'))
    q = 'None' if not p else f"Some(query[{','.join(f'({k},{v})' for k, v in p)}])"
    t = f"BetterUrl::set_query(url,{q})!"
    if i is None and not c.some('to') and c.I.render(c.st, ('tok', 'url')) == 'url': return 'Ok(())'
    c.S['purl'] = t; return 'Ok(())'
@s('QueryParam')
def _(c): return QP_SET(c)
def strict(f):
    def g(c): c.check_err_state = True; return f(c)
    return g
SET = {k: strict(v) for k, v in SET.items()}
