"""Specifications of the rule language, variant by variant, taken from the documentation of each type.

Every function receives a replay context `c` (see spec.py) and returns the required result; `self` is the
configured value, `ts` the task state.  The same tables serve several properties.
"""
from spec import Err, Any, Ret, Bad, joined as text_joined

def V(table, *names):
    def deco(f):
        for n in names: table[n] = (lambda c, n=n: f(c, n)) if f.__code__.co_argcount == 2 else f
        return f
    return deco

# ------------------------------------------------------------------ shapes shared by several types
def const_(v): return lambda c: v
def explicit_error(c): return Err('self.Error.0')
def map_get(c, m, val, known=None):
    """`Map`: present value -> its entry, otherwise `else`; absent value -> `if_null`, otherwise `else`."""
    if c.some(val):
        t = f"HashMap::get({m}.map,{val}.Some.0)"
        if c.some(t): return t + '.Some.0'
    elif c.some(m + '.if_null'): return m + '.if_null.Some.0'
    if c.some(m + '.else'): return m + '.else.Some.0'
    return None
def common(c, label, missing, field, mut=(), extra=()):
    """A call of a named common item: exactly the named entry, in the caller's state with only the call arguments replaced."""
    s = 'self.Common.0'
    name = [None]; args = [None]
    def n(): name[0] = c.get_str(s + '.name')
    def a(): args[0] = c.try_(c.ev('CommonCallArgsSource::build', s + '.args', c.state()))
    n()
    t = f"HashMap::get({c.S['commons']}.{field},{name[0]})"
    if not c.some(t): return Err(missing)
    a()
    c.I_common = True
    return c.ev(label, t + '.Some.0', *extra, c.state(common_args=f"Some({args[0]})"), mut=mut)

# ------------------------------------------------------------------ Condition
CONDITION = {}
def cond(c, x): return c.sat(x)
V(CONDITION, 'Always')(const_('Ok(true)')); V(CONDITION, 'Never')(const_('Ok(false)')); V(CONDITION, 'Error')(explicit_error)
V(CONDITION, 'Debug')(lambda c: cond(c, 'self.Debug.0'))
V(CONDITION, 'Not')(lambda c: f"Ok({'false' if c.try_bool(cond(c, 'self.Not.0')) else 'true'})")
def if_(sat):
    def f(c): return sat(c, 'self.If.then' if c.try_bool(sat(c, 'self.If.if')) else 'self.If.else')
    return f
def all_(sat, fld='All'):
    def f(c):
        for e in c.iter(f"self.{fld}.0"):
            if not c.try_bool(sat(c, e)): return 'Ok(false)'
        return 'Ok(true)'
    return f
def any_(sat, fld='Any'):
    def f(c):
        for e in c.iter(f"self.{fld}.0"):
            if c.try_bool(sat(c, e)): return 'Ok(true)'
        return 'Ok(false)'
    return f
def try_else_plain(sat):
    """`else` only after `try` failed; when both fail, the error carries both."""
    def f(c):
        r = sat(c, 'self.TryElse.try')
        if c.ok(r): return r
        r2 = sat(c, 'self.TryElse.else')
        if c.ok(r2): return r2
        return Err(r + '.Err.0', r2 + '.Err.0')
    return f
def treat(sat, var, verdict):
    def f(c):
        r = sat(c, f"self.{var}.0")
        return r if c.ok(r) else f"Ok({verdict})"
    return f
def first_not_error(sat, empty):
    """The first success wins; if every one fails, the last error is returned."""
    def f(c):
        last = None
        for e in c.iter('self.FirstNotError.0'):
            last = sat(c, e)
            if c.ok(last): return last
        return Err(last + '.Err.0') if last else empty
    return f
CONDITION['If'] = if_(cond); CONDITION['All'] = all_(cond); CONDITION['Any'] = any_(cond)
@V(CONDITION, 'PartMap')
def _(c):
    m = map_get(c, 'self.PartMap.map', f"UrlPart::get(self.PartMap.part,{c.S['url']})")
    return cond(c, m) if m else 'Ok(false)'
@V(CONDITION, 'StringMap')
def _(c):
    m = map_get(c, 'self.StringMap.map', c.get_opt('self.StringMap.value'))
    return cond(c, m) if m else 'Ok(false)'
@V(CONDITION, 'TreatErrorAsPass', 'TreatErrorAsFail')
def _(c, n):
    r = cond(c, f"self.{n}.condition")
    if c.ok(r): return r
    if c.truth(c.ev('ConditionErrorFilter::matches', f"self.{n}.filter", r + '.Err.0')): return 'Ok(true)' if n == 'TreatErrorAsPass' else 'Ok(false)'
    return Err(r + '.Err.0')
@V(CONDITION, 'TryElse')
def _(c):
    r = cond(c, 'self.TryElse.try')
    if c.ok(r): return r
    if not c.truth(c.ev('ConditionErrorFilter::matches', 'self.TryElse.filter', r + '.Err.0')): return Err(r + '.Err.0')
    r2 = cond(c, 'self.TryElse.else')
    return r2 if c.ok(r2) else Err(r + '.Err.0', r2 + '.Err.0')
@V(CONDITION, 'HostIs', 'SubdomainIs', 'RegDomainIs', 'DomainIs', 'DomainMiddleIs', 'NotDomainSuffixIs', 'DomainSuffixIs')
def _(c, n):
    u = c.S['url']; p = n[:-2]
    x = c.alias(f"UrlPart::get(UrlPart::{p},{u})", *([f"Url::host_str({u})"] if p == 'Host' else []))
    return 'Ok(true)' if c.opt_eq(x, f"self.{n}.0") else 'Ok(false)'
@V(CONDITION, 'HostIsOneOf')
def _(c):
    u = c.S['url']; h = c.alias(f"Url::host_str({u})", f"UrlPart::get(UrlPart::Host,{u})")
    if not c.some(h): return 'Ok(false)'
    return c.bool(c.contains('self.HostIsOneOf.0', h + '.Some.0'))
@V(CONDITION, 'UrlHasHost')
def _(c):
    u = c.S['url']; return c.bool(c.is_some(c.alias(f"Url::host({u})", f"Url::host_str({u})", f"Url::has_host({u})", f"UrlPart::get(UrlPart::Host,{u})", f"{u}.host_details")))
@V(CONDITION, 'HostIsFqdn', 'HostIsDomain', 'HostIsIp', 'HostIsIpv4', 'HostIsIpv6')
def _(c, n):
    d = c.alias(f"{c.S['url']}.host_details")
    if not c.some(d): return 'Ok(false)'
    k = c.choose(d + '.Some.0', ['Domain', 'Ipv4', 'Ipv6'])
    if n == 'HostIsFqdn': return 'Ok(true)' if k == 'Domain' and c.some(d + '.Some.0.Domain.0.fqdn_period') else 'Ok(false)'
    return 'Ok(true)' if k in {'HostIsDomain': ['Domain'], 'HostIsIp': ['Ipv4', 'Ipv6'], 'HostIsIpv4': ['Ipv4'], 'HostIsIpv6': ['Ipv6']}[n] else 'Ok(false)'
@V(CONDITION, 'QueryHasParam')
def _(c):
    for e in c.iter(f"Url::query_pairs({c.S['url']})"):
        if c.eq(e + '.0', 'self.QueryHasParam.0'): return 'Ok(true)'
    return 'Ok(false)'
@V(CONDITION, 'PathIs')
def _(c): return c.bool(c.eq(f"Url::path({c.S['url']})", 'self.PathIs.0'))
def part_of(c, p, missing='PartIsNone'):
    t = f"UrlPart::get({p},{c.S['url']})"
    if not c.some(t): raise Ret(Err(missing))
    return t + '.Some.0'
@V(CONDITION, 'PartIs')
def _(c):
    v = c.get_opt('self.PartIs.value')
    return c.bool(c.opt_eq(f"UrlPart::get(self.PartIs.part,{c.S['url']})", v))
@V(CONDITION, 'PartContains')
def _(c):
    p, v = c.par(lambda: part_of(c, 'self.PartContains.part'), lambda: c.get_str('self.PartContains.value'))
    return c.ev('StringLocation::satisfied_by', 'self.PartContains.where', p, v)
@V(CONDITION, 'PartMatches')
def _(c): return c.ev('StringMatcher::satisfied_by', 'self.PartMatches.matcher', part_of(c, 'self.PartMatches.part'), c.state())
@V(CONDITION, 'PartIsOneOf')
def _(c): return c.bool(c.contains('self.PartIsOneOf.values', part_of(c, 'self.PartIsOneOf.part')))
@V(CONDITION, 'FlagIsSet')
def _(c): return c.ev('FlagRef::get', 'self.FlagIsSet.0', c.state())
@V(CONDITION, 'VarIs')
def _(c):
    a, b = c.par(lambda: c.try_(c.ev('VarRef::get', 'self.VarIs.var', c.state())), lambda: c.get_opt('self.VarIs.value'))
    return c.bool(c.opt_eq(a, b))
@V(CONDITION, 'StringIs')
def _(c):
    a, b = c.par(lambda: c.get_opt('self.StringIs.left'), lambda: c.get_opt('self.StringIs.right'))
    return c.bool(c.opt_eq(a, b))
@V(CONDITION, 'StringContains')
def _(c):
    a, b = c.par(lambda: c.get_str('self.StringContains.value'), lambda: c.get_str('self.StringContains.substring'))
    return c.ev('StringLocation::satisfied_by', 'self.StringContains.where', a, b)
@V(CONDITION, 'StringMatches')
def _(c): return c.ev('StringMatcher::satisfied_by', 'self.StringMatches.matcher', c.get_str('self.StringMatches.value'), c.state())
CONDITION['Common'] = lambda c: common(c, 'Condition::satisfied_by', 'CommonConditionNotFound', 'conditions')
CONDITION['Custom'] = lambda c: c.ev('(*self.Custom.0)', c.state())

# ------------------------------------------------------------------ Mapper
MAPPER = {}
OK = 'Ok(())'
MAPPER['None'] = const_(OK); MAPPER['Error'] = explicit_error
MAPPER['Debug'] = lambda c: c.mapper('self.Debug.0')
@V(MAPPER, 'If')
def _(c):
    if c.try_bool(c.sat('self.If.condition')): return c.mapper('self.If.mapper')
    return c.mapper('self.If.else_mapper.Some.0') if c.some('self.If.else_mapper') else OK
@V(MAPPER, 'ConditionChain')
def _(c):
    for e in c.iter('self.ConditionChain.0'):
        if c.try_bool(c.sat(e + '.condition')): return c.mapper(e + '.mapper')
    return OK
@V(MAPPER, 'All')
def _(c):
    for e in c.iter('self.All.0'): c.try_(c.mapper(e))
    return OK
@V(MAPPER, 'PartMap')
def _(c):
    m = map_get(c, 'self.PartMap.map', f"UrlPart::get(self.PartMap.part,{c.S['url']})")
    return c.mapper(m) if m else OK
@V(MAPPER, 'StringMap')
def _(c):
    m = map_get(c, 'self.StringMap.map', c.get_opt('self.StringMap.value'))
    return c.mapper(m) if m else OK
@V(MAPPER, 'IgnoreError')
def _(c): c.mapper('self.IgnoreError.0'); return OK
MAPPER['TryElse'] = try_else_plain(lambda c, x: c.mapper(x))
MAPPER['FirstNotError'] = first_not_error(lambda c, x: c.mapper(x), OK)
@V(MAPPER, 'RevertOnError')
def _(c):
    old = dict(c.S); c.check_err_state = True
    r = c.mapper('self.RevertOnError.0')
    if c.ok(r): return OK
    c.S.update(url=old['url'], scratchpad=old['scratchpad']); return Err(r + '.Err.0')
MAPPER['RemoveQuery'] = lambda c: c.set_url('BetterUrl::set_query({},None)!')
def filtered_query(c, keep):
    u = c.S['url']
    if not c.some(c.alias(f"Url::query({u})", f"UrlPart::get(UrlPart::Query,{u})")): return OK
    pairs = [e for e in c.iter(f"Url::query_pairs({u})") if keep(e + '.0')]
    if not pairs: return c.set_url('BetterUrl::set_query({},None)!')
    return c.set_url('BetterUrl::set_query({},Some(query[' + ','.join(f"({e}.0,{e}.1)" for e in pairs) + ']))!')
@V(MAPPER, 'RemoveQueryParam')
def _(c):
    if not c.some(f"Url::query({c.S['url']})"):
        # nothing to remove: whether the name is computed at all is not specified
        if c.peek('StringSource::get', 'self.RemoveQueryParam.0'): c.get_str('self.RemoveQueryParam.0')
        return OK
    n = c.get_str('self.RemoveQueryParam.0')
    return filtered_query(c, lambda k: not c.eq(k, n))
MAPPER['RemoveQueryParams'] = lambda c: filtered_query(c, lambda k: not c.contains('self.RemoveQueryParams.0', k))
MAPPER['AllowQueryParams'] = lambda c: filtered_query(c, lambda k: c.contains('self.AllowQueryParams.0', k))
def match_q(n, want): return lambda c: filtered_query(c, lambda k: c.try_bool(c.ev('StringMatcher::satisfied_by', f"self.{n}.0", k, c.state())) == want)
MAPPER['RemoveQueryParamsMatching'] = match_q('RemoveQueryParamsMatching', False)
MAPPER['AllowQueryParamsMatching'] = match_q('AllowQueryParamsMatching', True)
def parse_url(c, s):
    t = f"Url::parse({s})"
    return f"BetterUrl::from({c.try_(t)})"
@V(MAPPER, 'GetUrlFromQueryParam')
def _(c):
    n = c.get_str('self.GetUrlFromQueryParam.0')
    for e in c.iter(f"Url::query_pairs({c.S['url']})"):
        if c.eq(e + '.0', n): return c.set_url(parse_url(c, e + '.1'))
    return Err('CannotFindQueryParam')
@V(MAPPER, 'SetHost')
def _(c):
    t = f"BetterUrl::set_host({c.S['url']},self.SetHost.0)"
    c.try_(t); return c.set_url('BetterUrl::set_host({},self.SetHost.0)!')
@V(MAPPER, 'Join')
def _(c):
    s = c.get_str('self.Join.0')
    return c.set_url(f"BetterUrl::from({c.try_(f'''Url::join({c.S['url']},{s})''')})")
def part_set(c, p, v, on='url'):
    r = c.ev('UrlPart::set', p, c.S[on] if on in c.S else on, v, mut=(on,) if on in c.S else ())
    return r
@V(MAPPER, 'SetPart')
def _(c): return part_set(c, 'self.SetPart.part', c.opt_term(c.get_opt('self.SetPart.value')))
@V(MAPPER, 'ModifyPart')
def _(c):
    t = f"UrlPart::get(self.ModifyPart.part,{c.S['url']})"
    if not c.some(t): return OK
    r = c.ev('StringModification::apply', 'self.ModifyPart.modification', t + '.Some.0', c.state())
    k = r.rsplit('#', 1)[1]; c.try_(r)
    return part_set(c, 'self.ModifyPart.part', f"Some({t}.Some.0'{k})")
@V(MAPPER, 'CopyPart')
def _(c): return part_set(c, 'self.CopyPart.to', c.opt_term(f"UrlPart::get(self.CopyPart.from,{c.S['url']})"))
@V(MAPPER, 'MovePart')
def _(c):
    """Copy then clear, on a copy of the URL: either both happen or neither."""
    c.check_err_state = True; old = c.S['url']
    def undo(r):
        c.S['url'] = old; raise Ret(Err(r + '.Err.0'))
    r = part_set(c, 'self.MovePart.to', c.opt_term(f"UrlPart::get(self.MovePart.from,{old})"))
    if not c.ok(r): undo(r)
    r = part_set(c, 'self.MovePart.from', 'None')
    if not c.ok(r): undo(r)
    return OK
def cached(c, key_of, cat, compute, hit, missing):
    """Cache discipline: consulted only when reading is on, written only when writing is on and only after success."""
    if c.truth(f"{c.S['params']}.read_cache"):
        r = c.try_(c.ev('Cache::read', c.S['cache'], cat, key_of))
        if c.some(r):
            if missing is None: return hit(r + '.Some.0')
            if not c.some(r + '.Some.0'): return Err(missing)
            return hit(r + '.Some.0.Some.0')
    val = compute()
    if c.truth(f"{c.S['params']}.write_cache"): c.try_(c.ev('Cache::write', c.S['cache'], cat, key_of, val[0]))
    return val[1]()
@V(MAPPER, 'CacheUrl')
def _(c):
    cat = c.get_str('self.CacheUrl.category'); key = c.S['url']
    def compute():
        c.try_(c.mapper('self.CacheUrl.mapper')); return (f"Some({c.S['url']})", lambda: OK)
    return cached(c, key, cat, compute, lambda s: c.set_url(parse_url(c, s)), 'CachedUrlIsNone')
@V(MAPPER, 'ExpandRedirect')
def _(c):
    key = c.S['url']; s = 'self.ExpandRedirect'
    def compute():
        cl = c.try_(c.ev('TaskStateView::http_client', c.state(), f"{s}.http_client_config_diff"))
        resp = c.try_(f"RequestBuilder::send(RequestBuilder::headers(Client::get({cl},{key}),{s}.headers))")
        if c.truth(f"StatusCode::is_redirection(Response::status({resp}))"):
            h = f"HeaderMap::get(Response::headers({resp}),location)"
            h = c.alias(h, f"HeaderMap::get(Response::headers({resp}),'location')")
            if not c.some(h): raise Ret(Err('LocationHeaderNotFound'))
            new = parse_url(c, c.try_(f"converts::from_utf8(HeaderValue::as_bytes({h}.Some.0))"))
        else: new = f"BetterUrl::from(Response::url({resp}))"
        return (f"Some({new})", lambda: c.set_url(new))
    return cached(c, key, "'redirect'", compute, lambda x: c.set_url(parse_url(c, x)), 'CachedUrlIsNone')
@V(MAPPER, 'SetScratchpadFlag')
def _(c):
    n = c.get_str('self.SetScratchpadFlag.name')
    op = 'insert' if c.truth('self.SetScratchpadFlag.value') else 'remove'
    return c.set_sp(f"flags:=HashSet::{op}({c.S['scratchpad']}.flags,{n})!")
@V(MAPPER, 'SetScratchpadVar')
def _(c):
    v, n = c.par(lambda: c.get_opt('self.SetScratchpadVar.value'), lambda: c.get_str('self.SetScratchpadVar.name'))
    sp = c.S['scratchpad']
    if c.some(v): return c.set_sp(f"vars:=HashMap::insert({sp}.vars,{n},{v}.Some.0)!")
    return c.set_sp(f"vars:=HashMap::remove({sp}.vars,{n})!")
@V(MAPPER, 'ModifyScratchpadVar')
def _(c):
    n = c.get_str('self.ModifyScratchpadVar.name'); sp = c.S['scratchpad']
    t = f"HashMap::get({sp}.vars,{n})"
    if not c.some(t): return OK
    r = c.ev('StringModification::apply', 'self.ModifyScratchpadVar.modification', t + '.Some.0', c.state())
    k = r.rsplit('#', 1)[1]; c.try_(r)
    return c.set_sp(f"vars:=HashMap::insert({sp}.vars,{n},{t}.Some.0'{k})!")
MAPPER['Rule'] = lambda c: c.ev('Rule::apply', 'self.Rule.0', c.state(), mut=('url', 'scratchpad'))
MAPPER['Rules'] = lambda c: c.ev('Rules::apply', 'self.Rules.0', c.state(), mut=('url', 'scratchpad'))
@V(MAPPER, 'Retry')
def _(c):
    """At most `limit` attempts; success stops; a sleep only between attempts; the last error is returned."""
    i = 0; s = 'self.Retry'
    while c.lt(str(i), s + '.limit'):
        r = c.mapper(s + '.mapper'); i += 1
        if c.ok(r): return OK
        if not c.lt(str(i), s + '.limit'): return Err(r + '.Err.0')
        c.ev('sleep', s + '.delay')
    return OK
MAPPER['Common'] = lambda c: common(c, 'Mapper::apply', 'CommonMapperNotFound', 'mappers', ('url', 'scratchpad'))
MAPPER['Custom'] = lambda c: c.ev('(*self.Custom.0)', c.state(), mut=('url', 'scratchpad'))

# ------------------------------------------------------------------ Rule / Rules
RULE = {}
RMUT = ('url', 'scratchpad')
def rmap(n, label, part):
    def f(c):
        val = f"UrlPart::get(self.{n}.part,{c.S['url']})" if part else c.get_opt(f"self.{n}.value")
        m = map_get(c, f"self.{n}.map", val)
        return c.ev(label, m, c.state(), mut=RMUT) if m else OK
    return f
for n, label in (('PartMap', 'Mapper::apply'), ('PartRuleMap', 'Rule::apply'), ('PartRulesMap', 'Rules::apply')): RULE[n] = rmap(n, label, True)
for n, label in (('StringMap', 'Mapper::apply'), ('StringRuleMap', 'Rule::apply'), ('StringRulesMap', 'Rules::apply')): RULE[n] = rmap(n, label, False)
@V(RULE, 'Normal')
def _(c):
    if c.try_bool(c.sat('self.Normal.condition')): return c.mapper('self.Normal.mapper')
    return c.mapper('self.Normal.else_mapper.Some.0') if c.some('self.Normal.else_mapper') else OK
@V(RULE, 'Repeat')
def _(c):
    """Until neither the URL nor the scratchpad changed, at most `limit` times; stops at the first error."""
    i = 0
    while c.lt(str(i), 'self.Repeat.limit'):
        u, s = c.S['url'], c.S['scratchpad']
        c.try_(c.ev('Rules::apply', 'self.Repeat.rules', c.state(), mut=RMUT)); i += 1
        if c.both_eq((u, c.S['url']), (s, c.S['scratchpad'])): return OK
        if i > 40: break
    return OK
@V(RULE, 'SharedCondition')
def _(c):
    if c.try_bool(c.sat('self.SharedCondition.condition')): return c.ev('Rules::apply', 'self.SharedCondition.rules', c.state(), mut=RMUT)
    return OK
RULE['Rules'] = lambda c: c.ev('Rules::apply', 'self.Rules.0', c.state(), mut=RMUT)
RULE['Mapper'] = lambda c: c.mapper('self.Mapper.0')
RULE['Common'] = lambda c: common(c, 'Rule::apply', 'CommonRuleNotFound', 'rules', RMUT)
RULE['Custom'] = lambda c: c.ev('(*self.Custom.0)', c.state(), mut=RMUT)
def RULES(c):
    for e in c.iter('self.0'): c.try_(c.ev('Rule::apply', e, c.state(), mut=RMUT))
    return OK

# ------------------------------------------------------------------ StringSource
SOURCE = {}
def src(c, x): return c.get(x)
SOURCE['String'] = const_('Ok(Some(self.String.0))'); SOURCE['None'] = const_('Ok(None)'); SOURCE['Error'] = explicit_error
SOURCE['Debug'] = lambda c: src(c, 'self.Debug.0')
@V(SOURCE, 'ErrorToNone')
def _(c):
    r = src(c, 'self.ErrorToNone.0'); return r if c.ok(r) else 'Ok(None)'
@V(SOURCE, 'ErrorToEmptyString')
def _(c):
    r = src(c, 'self.ErrorToEmptyString.0'); return r if c.ok(r) else "Ok(Some(''))"
@V(SOURCE, 'TryElse')
def _(c):
    r = src(c, 'self.TryElse.try'); return r if c.ok(r) else src(c, 'self.TryElse.else')
@V(SOURCE, 'NoneToEmptyString')
def _(c):
    r = src(c, 'self.NoneToEmptyString.0'); return r if c.some(c.try_(r)) else "Ok(Some(''))"
@V(SOURCE, 'NoneTo')
def _(c):
    r = src(c, 'self.NoneTo.value'); return r if c.some(c.try_(r)) else src(c, 'self.NoneTo.if_none')
@V(SOURCE, 'Join')
def _(c):
    parts = []
    for e in c.iter('self.Join.sources'):
        x = c.try_(src(c, e))
        if not c.some(x): return 'Ok(None)'
        parts.append(x + '.Some.0')
    return 'Ok(Some(' + text_joined(parts, 'self.Join.join') + '))'
SOURCE['IfFlag'] = lambda c: src(c, 'self.IfFlag.then' if c.try_bool(c.ev('FlagRef::get', 'self.IfFlag.flag', c.state())) else 'self.IfFlag.else')
@V(SOURCE, 'IfStringMatches')
def _(c):
    m = c.ev('StringMatcher::satisfied_by', 'self.IfStringMatches.matcher', c.get_str('self.IfStringMatches.value'), c.state())
    return src(c, 'self.IfStringMatches.then' if c.try_bool(m) else 'self.IfStringMatches.else')
@V(SOURCE, 'IfStringIsNone')
def _(c): return src(c, 'self.IfStringIsNone.else' if c.some(c.get_opt('self.IfStringIsNone.value')) else 'self.IfStringIsNone.then')
@V(SOURCE, 'Map')
def _(c):
    m = map_get(c, 'self.Map.map', c.get_opt('self.Map.value'))
    return src(c, m) if m else Err('StringNotInMap')
SOURCE['Part'] = lambda c: f"Ok(UrlPart::get(self.Part.0,{c.S['url']}))"
@V(SOURCE, 'ExtractPart')
def _(c):
    v = c.get_opt('self.ExtractPart.value')
    if not c.some(v): return 'Ok(None)'
    return f"Ok(UrlPart::get(self.ExtractPart.part,{parse_url(c, v + '.Some.0')}))"
SOURCE['Var'] = lambda c: c.ev('VarRef::get', 'self.Var.0', c.state())
@V(SOURCE, 'ParamsMap')
def _(c):
    n = c.get_str('self.ParamsMap.name')
    t = f"HashMap::get({c.S['params']}.maps,{n})"
    if not c.some(t): return Err('MapNotFound')
    m = map_get(c, t + '.Some.0', c.get_opt('self.ParamsMap.key'))
    return f"Ok(Some({m}))" if m else 'Ok(None)'
@V(SOURCE, 'ParamsNamedPartitioning')
def _(c):
    n = c.get_str('self.ParamsNamedPartitioning.name')
    t = f"HashMap::get({c.S['params']}.named_partitionings,{n})"
    if not c.some(t): return Err('NamedPartitioningNotFound')
    e = c.get_str('self.ParamsNamedPartitioning.element')
    return f"Ok(HashMap::get({t}.Some.0.map,{e}))"
@V(SOURCE, 'Modified')
def _(c):
    v = c.get_opt('self.Modified.value')
    if not c.some(v): return 'Ok(None)'
    r = c.ev('StringModification::apply', 'self.Modified.modification', v + '.Some.0', c.state()); c.try_(r)
    return f"Ok(Some({v}.Some.0'{r.rsplit('#', 1)[1]}))"
def regex(c, x):
    return c.try_(f"RegexWrapper::get({x})")
@V(SOURCE, 'RegexFind')
def _(c):
    v = c.get_opt('self.RegexFind.value')
    if not c.some(v): return 'Ok(None)'
    m = f"Regex::find({regex(c, 'self.RegexFind.regex')},{v}.Some.0)"
    return f"Ok(Some(Match::as_str({m}.Some.0)))" if c.some(m) else 'Ok(None)'
SOURCE['HttpRequest'] = lambda c: wrap_some(c, c.ev('RequestConfig::response', 'self.HttpRequest.0', c.state()))
SOURCE['CommandOutput'] = lambda c: wrap_some(c, c.ev('CommandConfig::output', 'self.CommandOutput.0', c.state()))
def wrap_some(c, r): return f"Ok(Some({c.try_(r)}))"
@V(SOURCE, 'ExtractBetween')
def _(c):
    s = 'self.ExtractBetween'
    v = c.get_str(s + '.value')
    a = f"str::split_once({v},{c.get_str(s + '.start')})"
    if not c.some(a): return Err('ExtractBetweenStartNotFound')
    b = f"str::split_once({a}.Some.0.1,{c.get_str(s + '.end')})"
    if not c.some(b): return Err('ExtractBetweenEndNotFound')
    return f"Ok(Some({b}.Some.0.0))"
@V(SOURCE, 'Cache')
def _(c):
    s = 'self.Cache'
    cat, key = c.par(lambda: c.get_str(s + '.category'), lambda: c.get_str(s + '.key'))
    def compute():
        r = src(c, s + '.value'); v = c.try_(r)
        return (lambda e: e in (v, 'None' if c.fact(v) == 'None' else f"Some({v}.Some.0)")), lambda: r
    return cached(c, key, cat, compute, lambda t: f"Ok({t})", None)
SOURCE['Common'] = lambda c: common(c, 'StringSource::get', 'CommonStringSourceNotFound', 'string_sources')
SOURCE['Custom'] = lambda c: c.ev('(*self.Custom.0)', c.state())
