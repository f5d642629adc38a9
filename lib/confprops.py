"""What the default configuration promises, decided on its rules."""
import os, re
import defconf as D, psl
from defconf import variant, lit, ref, text, contains

HOSTS = {'"HostWithoutWWWDotPrefixAndFqdnPeriod"': 'host', '"RegDomain"': 'reg', '"DomainMiddle"': 'middle'}
WEB = {('part', '"Scheme"'): 'https'}
class Conf:
    def __init__(self, repo):
        self.repo = repo; self.c = D.load(repo); self.L = psl.List(repo); self.runs = {}
        if not self.L.known: self.L = None
        self.all = self.run()
    def run(self, **a):
        """The run under assumptions: flags on and off, and what is known of the URL's host."""
        k = text({x: sorted(y) if isinstance(y, (set, frozenset)) else y for x, y in a.items()})
        if k not in self.runs:
            A = {('flag', f): True for f in a.get('on', ())} | {('flag', f): False for f in a.get('off', ())} | {x: a[x] for x in ('host', 'reg', 'middle') if x in a}
            A |= {('part', p): v for p, v in a.get('parts', {}).items()}
            if a.get('web'): A |= WEB | {'web': True}
            self.runs[k] = D.Run(self.c, A, self.L)
        return self.runs[k]
def named(p): return lit(p['name']) if isinstance(p, dict) and 'name' in p else lit(p)
def site(at):
    """The innermost key of a map, or the common, that a place is in: its identity in what is reported."""
    ks = [str(x) for x in at if isinstance(x, str) and (x.startswith('map.') or x.startswith('<'))]
    return ' '.join(ks) or '/'.join(str(x) for x in at[:8])

# --- requests
def requests(rep, C):
    sinks = D.sinks(C.all); rep.count('request_sites', len({(site(a), text(x)) for a, x, _ in sinks})); rep.floor('request_sites', 8)
    rep.count('values_reached', len(C.all.seen)); rep.floor('values_reached', 3000)
    for at, x, _ in D.sinks(C.run(on=('no-network',))):
        rep.bad('no-network:' + site(at), f"with the flag no-network set, {variant(x)[0]} can still be reached", D.where(at))
    third = [z for z in sinks if contains(z[1], lambda y: isinstance(y, str) and 'bypass.vip' in y)]
    rep.count('third_party_sites', len(third)); rep.floor('third_party_sites', 1)
    for at, x, _ in D.sinks(C.run(off=('bypass.vip',))):
        if contains(x, lambda y: isinstance(y, str) and 'bypass.vip' in y): rep.bad('bypass.vip:' + site(at), "a URL can be sent to bypass.vip although the flag bypass.vip is not set", D.where(at))
    for at, x, _ in third: rep.sample(f"{site(at)}: only with bypass.vip")
# --- tracking parameters
def tracking(rep, C):
    if not any(C.all.cleans(variant(x)[1]) for _, x, _ in C.all.seen if variant(x)[0] == 'RemoveQueryParamsMatching'): rep.bad('universal', 'nothing removes the query parameters that are in the set utps or start with one of utp-prefixes', 'default-config.json')
    R = C.run(web=True); rep.count('request_sites'); rep.count('values_reached', len(R.seen)); rep.floor('values_reached', 3000)
    if not R.end or not all(R.end.values()): rep.bad('result', 'a web URL can leave the rules without its universal tracking parameters having been removed since it was last replaced', 'default-config.json: rules')
    else: rep.sample('the rules end with the universal tracking parameters removed')
    for at, x, st in D.sinks(R):
        rep.count('request_sites')
        if not all(st.values()): rep.bad('request:' + site(at), f"{variant(x)[0]} can be reached without the universal tracking parameters having been removed from the URL", D.where(at))
        else: rep.sample(f"{site(at)}: {variant(x)[0]} after the removal")
    rep.floor('request_sites', 9)
    for e in C.c.get('params', {}).get('sets', {}).get('utps-reg-domain-whitelist', []):
        rep.count('exempt_domains')
        for at, x, _ in C.run(reg=e, web=True).seen:
            if variant(x)[0] == 'RemoveQueryParamsMatching' and C.all.cleans(variant(x)[1]): rep.bad('exempt:' + e, f"universal tracking parameters are removed from URLs of {e}, which utps-reg-domain-whitelist exempts", D.where(at)); break
# --- references
def uses(x, at, out):
    """(kind, name, where) of every name a configuration refers to."""
    if isinstance(x, list):
        for i, y in enumerate(x): uses(y, at + (i,), out)
    elif isinstance(x, dict):
        for k, p in x.items():
            n = named(p) if isinstance(p, (str, dict)) else None
            if k in ('InSet', 'ParamsSet') and n: out.append(('sets', n, at))
            if k in ('ParamsMap', 'VarMap') and isinstance(p, dict) and n: out.append(('maps', n, at))
            if k in ('ParamsNamedPartitioning',) and n: out.append(('named_partitionings', n, at))
            if k == 'list' and isinstance(p, str): out.append(('lists', p, at))
            if k in ('InList', 'InParamsList') and n: out.append(('lists', n, at))
            if k in ('FlagIsSet', 'IfFlag', 'flag') or k in ('Var', 'VarIs', 'var'):
                q = p.get('flag' if k == 'IfFlag' else 'var', p) if isinstance(p, dict) else p
                t, m = ref(q)
                if m: out.append((('flags' if k in ('FlagIsSet', 'IfFlag', 'flag') else 'vars') if t == 'Params' else 'environment_vars' if t == 'Env' else 'common ' + ('flag' if 'lag' in k else 'var') if t in ('Common', 'CommonArg') else 'other', m, at))
            uses(p, at + (k,), out)
def references(rep, C):
    c = C.c; out = []; docs = c.get('docs', {}); params = c.get('params', {})
    uses(c.get('rules', []), ('rules',), out); uses(c.get('commons', {}), ('commons',), out)
    strings = set()
    def collect(x):
        if isinstance(x, str): strings.add(x)
        elif isinstance(x, (list, dict)): [collect(y) for y in (x.values() if isinstance(x, dict) else x)]
    collect(c.get('rules')); collect(c.get('commons')); rep.count('references', len(out)); rep.floor('references', 60)
    for kind, n, at in out:
        if kind in ('sets', 'lists', 'maps', 'named_partitionings'):
            if n not in params.get(kind, {}) and n not in docs.get(kind, {}): rep.bad(f"{kind}:{n}", f"{n} of {kind} is referred to but neither given nor documented", D.where(at))
            if kind in ('lists', 'maps', 'named_partitionings') and n not in params.get(kind, {}): rep.bad(f"{kind}:{n}", f"{n} of {kind} is referred to but not given", D.where(at))
        if kind in ('flags', 'vars', 'environment_vars') and n not in docs.get(kind, {}): rep.bad(f"{kind}:{n}", f"{n} of {kind} is referred to but not documented", D.where(at))
    for kind, n in C.all.missing: rep.bad(f"common:{n}", f"the common {n} of {kind} is called but does not exist", 'default-config.json')
    for kind, n in C.all.cycles: rep.bad(f"recursion:{n}", f"the common {n} of {kind} calls itself", f"default-config.json: commons / {kind} / {n}")
    for kind, xs in c.get('commons', {}).items():
        for n, body in xs.items():
            rep.count('commons'); calls = [p for k, m, p in C.all.calls if (k, m) == (kind, n)]
            if not calls: rep.bad(f"unused:{n}", f"nothing calls the common {n} of {kind}", f"default-config.json: commons / {kind} / {n}")
            need = []; uses(body, (), need)
            for p in calls:
                p = D.json.loads(p); a = p.get('args') or {} if isinstance(p, dict) else {}
                for k, v, _ in need:
                    rep.count('arguments')
                    if k == 'common var' and v not in (a.get('vars') or {}) : rep.bad(f"argument:{n}:{v}", f"a call of the common {n} does not give it the variable {v}", f"default-config.json: {text(p)[:120]}")
    for kind in ('flags', 'vars', 'environment_vars', 'sets', 'lists', 'maps', 'named_partitionings'):
        for n in docs.get(kind, {}):
            rep.count('documented')
            if n not in strings: rep.bad(f"documented:{kind}:{n}", f"{n} of {kind} is documented but nothing uses it", f"default-config.json: docs / {kind}")
        for n in params.get(kind, {}):
            if isinstance(params[kind], dict) and n not in docs.get(kind, {}): rep.bad(f"undocumented:{kind}:{n}", f"{n} of {kind} is given but not documented", f"default-config.json: params / {kind}")
            elif isinstance(params[kind], list) and n not in docs.get(kind, {}): rep.bad(f"undocumented:{kind}:{n}", f"{n} of {kind} is set but not documented", f"default-config.json: params / {kind}")
    rep.floor('documented', 40); rep.floor('commons', 4); rep.floor('arguments', 10)
    for n in ('utps', 'redirect-hwwwwdpafqdnps'): rep.sample(f"{n}: referred to, given and documented")
# --- flags and sets
def setting(parts, v=0):
    """Whether a mapper sets one of these parts (to this value)."""
    def f(x):
        k, p = variant(x)
        if k == 'SetHost': return 'Host' in parts and v in (0, p)
        if k == 'SetPart' and isinstance(p, dict): return part(p.get('part')) in parts and (v == 0 or p.get('value', 0) == v or v is not None and lit(p.get('value')) == v)
        return k in ('CopyPart', 'MovePart') and isinstance(p, dict) and v == 0 and part(p.get('to')) in parts
    return f
def part(p): return p if isinstance(p, str) else text(p)
def var(n): return lambda x: variant(x)[0] == 'Var' and ref(variant(x)[1]) == ('Params', n)
def removing(q):
    def f(x):
        k, p = variant(x)
        if k == 'RemoveQueryParam': return lit(p) == q
        if k == 'RemoveQueryParams': return isinstance(p, list) and q in p
        if k == 'RemoveQueryParamsMatching': return lit((p or {}).get('Is')) == q or q in ((p or {}).get('IsOneOf') or [])
        return k == 'SetPart' and p.get('part') == {'QueryParam': q} and p.get('value', 0) is None
    return f
def moving(a): return lambda x: variant(x)[0] in ('MovePart', 'CopyPart') and isinstance(variant(x)[1], dict) and variant(x)[1].get('from') == a
def vid(x): k, p = variant(x); return k in ('CopyPart', 'MovePart') and p.get('to') == {'QueryParam': 'v'} or k == 'SetPart' and p.get('part') == {'QueryParam': 'v'}
def langs(x): k, p = variant(x); return k == 'ParamsMap' and named(p) == 'hwwwwdpafqdnp_lang_query_params'
def segment(x): k, p = variant(x); return k == 'SetPart' and variant(p.get('part'))[0] == 'SubdomainSegment' and p.get('value', 0) is None
def asking(x): return variant(x)[0] == 'ExpandRedirect'
def third(x): return variant(x)[0] == 'HttpRequest' and contains(x, lambda y: isinstance(y, str) and 'bypass.vip' in y)
Y0 = '{"PathSegment": 0}'
# (flags any of which brings it about, the URLs, what it is, how it is recognised)
WITH = [
    (['breezewiki', 'unbreezewiki'], {'category': 'breezewiki'}, 'a BreezeWiki host becoming fandom.com', setting({'Host', 'RegDomain'}, 'fandom.com')),
    (['nitter', 'unnitter'], {'category': 'nitter'}, 'a Nitter host becoming x.com', setting({'Host', 'RegDomain'}, 'x.com')),
    (['invidious', 'uninvidious'], {'category': 'invidious'}, 'an Invidious host becoming youtube.com', setting({'Host', 'RegDomain'}, 'youtube.com')),
    (['breezewiki'], {'reg': 'fandom.com'}, 'fandom.com becoming breezewiki-host', var('breezewiki-host')),
    (['nitter'], {'host': 'x.com'}, 'x.com becoming nitter-host', var('nitter-host')),
    (['invidious'], {'reg': 'youtube.com'}, 'youtube.com becoming invidious-host', var('invidious-host')),
    (['embed-compatibility'], {'host': 'x.com'}, 'x.com becoming twitter-embed-host', var('twitter-embed-host')),
    (['embed-compatibility'], {'host': 'bsky.app'}, 'bsky.app becoming bluesky-embed-host', var('bluesky-embed-host')),
    (['discord-unexternal'], {'category': 'discord-external'}, 'an image proxy URL of Discord becoming the original', lambda x: setting({'Whole'})(x) and contains(x, lambda y: isinstance(y, dict) and y.get('Part') == 'Path')),
    (['tor2web2tor'], {'middle': 'onion'}, 'the suffix after .onion being removed', setting({'DomainSuffix'}, None)),
    (['tumblr-unsubdomain-blog'], {'reg': 'tumblr.com'}, 'the blog of tumblr.com moving to the path', moving('Subdomain')),
    (['unmobile'], {}, 'the subdomain for mobiles being removed', segment),
    (['youtube-unshort'], {'reg': 'youtube.com', 'parts': {Y0: 'shorts'}}, 'a short becoming a video', vid),
    (['youtube-unlive'], {'reg': 'youtube.com', 'parts': {Y0: 'live'}}, 'a stream becoming a video', vid),
    (['youtube-unembed'], {'reg': 'youtube.com', 'parts': {Y0: 'embed'}}, 'an embed becoming a video', vid),
    (['youtube-unplaylist'], {'reg': 'youtube.com', 'parts': {Y0: 'watch'}}, 'the playlist being removed', removing('list')),
    (['remove-unused-search-query'], {'reg': 'rule34.xxx'}, 'the search query being removed', removing('tags')),
    (['instagram-unprofilecard'], {'reg': 'instagram.com'}, 'the profile card being removed', setting({'{"PathSegment": 1}'}, None)),
    (['furaffinity-sfw'], {'reg': 'furaffinity.net'}, 'the subdomain becoming sfw', setting({'Subdomain'}, 'sfw')),
    (['bypass.vip'], {'set': ('host', 'bypass.vip-hwwwwdpafqdnps')}, 'bypass.vip being asked', third),
]
WITHOUT = [
    ('no-https-upgrade', {}, 'http becoming https', setting({'Scheme'}, 'https')),
    ('keep-lang', {}, 'the language parameter being removed', langs),
    ('youtube-keep-sub-confirmation', {'reg': 'youtube.com'}, 'sub_confirmation being removed', removing('sub_confirmation')),
    ('no-network', {'set': ('host', 'redirect-hwwwwdpafqdnps')}, 'a redirect being followed', asking),
    ('no-network', {'set': ('reg', 'redirect-reg-domains')}, 'a redirect being followed', asking),
]
# (set, what is known of the URL, flags set, what never happens to such URLs, how it is recognised)
NEVER = [
    ('https-upgrade-host-blacklist', 'Host', [], 'http becoming https', setting({'Scheme'}, 'https')),
    ('unmobile-reg-domain-blacklist', 'RegDomain', ['unmobile'], 'the subdomain for mobiles being removed', segment),
]
def urls(C, u):
    """Everything to be assumed of the URLs a row is about."""
    if 'category' in u:
        xs = C.c.get('params', {}).get('named_partitionings', {}).get('hwwwwdpafqdnp_categories', {}).get(u['category'], [])
        return [{'host': x} for x in xs]
    if 'set' in u: k, s = u['set']; return [{k: x} for x in sorted(C.c.get('params', {}).get('sets', {}).get(s, []))]
    return [u]
def flags(rep, C):
    def reached(f, **a): return next((at for at, x, _ in C.run(**a).seen if f(x)), None)
    def show(u): return next((u[k] for k in ('host', 'reg', 'middle') if k in u), 'any URL')
    for fs, u, what, f in WITH:
        us = urls(C, u)
        if not us: rep.bad(f"{fs[0]}:none", f"{fs[0]}: no URLs for {what} are listed", 'default-config.json')
        for a in us:
            rep.count('obligations', 1 + len(fs)); at = reached(f, off=fs, web=True, **a)
            if at: rep.bad(f"{fs[0]}:unasked:{what}", f"{what} ({show(a)}) can be reached although none of the flags {', '.join(fs)} is set", D.where(at))
            for g in fs:
                if not reached(f, on=(g,), off=[x for x in fs if x != g], web=True, **a): rep.bad(f"{g}:idle:{what}", f"the flag {g} does not bring about {what} ({show(a)})", 'default-config.json')
        rep.sample(f"{what}: only with {' or '.join(fs)}")
    for g, u, what, f in WITHOUT:
        for a in urls(C, u):
            rep.count('obligations', 2); w = not what.startswith('http '); at = reached(f, on=(g,), web=w, **a)
            if at: rep.bad(f"{g}:anyway:{what}", f"{what} ({show(a)}) can be reached although the flag {g} is set", D.where(at))
            if not reached(f, off=(g,), web=w, **a): rep.bad(f"{g}:gone:{what}", f"nothing brings about {what} ({show(a)})", 'default-config.json')
        rep.sample(f"{what}: not with {g}")
    for s, p, on, what, f in NEVER:
        for e in C.c.get('params', {}).get('sets', {}).get(s, []):
            rep.count('obligations'); a = {'parts': {f'"{p}"': e}} if p == 'Host' else {'reg': e}
            at = reached(f, on=on, **a)
            if at: rep.bad(f"{s}:{what}", f"{what} can be reached for {e}, which is in {s}", D.where(at))
    rep.floor('obligations', 100)
# --- sites
def form(C, p, v):
    """Why a part can never be this value."""
    if p in HOSTS or p in ('"Host"', '"NormalizedHost"', '"DomainSuffix"'):
        if v != v.lower() or set(v) & set(' /?#@') or not v or v.startswith('.') or v.endswith('.') and p != '"Host"': return 'it is not how a host is written'
    if p == '"HostWithoutWWWDotPrefixAndFqdnPeriod"' and v.startswith('www.'): return 'that part has no www. at its start'
    if p == '"RegDomain"' and C.L and C.L.domain(v) != v: return f"it is not a registrable domain ({C.L.domain(v)} is)"
    if p == '"DomainSuffix"' and C.L and C.L.suffix('x.' + v) != v: return 'it is not a public suffix'
    if p == '"DomainMiddle"' and '.' in v: return 'that part has no dots'
    if p == '"Path"' and not v.startswith('/'): return 'the path of a web URL starts with a slash'
    if p == '"Scheme"' and (v != v.lower() or ':' in v): return 'it is not how a scheme is written'
    if p.startswith('{"PathSegment"') and '/' in v: return 'a path segment has no slash'
def sites(rep, C):
    R = C.all
    def there(where, kind, p, k): return any(q == (where, kind, p) and k in s for q, (_, s) in C.run(**{HOSTS[p]: k}, web=True).taken.items())
    def at(w): return D.where(w)
    for (w, kind, p), (node, ks) in R.taken.items():
        for k in sorted(ks):
            rep.count('keys'); e = form(C, p, k)
            if e: rep.bad(f"key:{p}:{k}", f"a rule is written for {k} as the {p} of a URL, which it never is: {e}", at(w)); continue
            if p in HOSTS and not there(w, kind, p, k): rep.bad(f"unreached:{p}:{k}", f"the rule written for {k} is not reached by URLs of {k}: what is around it does not let them through", at(w))
        q = D.json.loads(p)
        if isinstance(q, dict) and 'category' in q:
            xs = C.c.get('params', {}).get('named_partitionings', {}).get(q['of'], {})
            for k in node['map']:
                for h in xs.get(k, []):
                    rep.count('keys')
                    e = form(C, text(q['category']), h)
                    if e: rep.bad(f"key:{k}:{h}", f"{h} is listed as {k}, by a part that it never is: {e}", at(w)); continue
                    if text(q['category']) in HOSTS and not any(z == (w, kind, p) and k in s for z, (_, s) in C.run(**{HOSTS[text(q['category'])]: h}, web=True).taken.items()): rep.bad(f"unreached:{k}:{h}", f"the rule written for {k} is not reached by URLs of {h}", at(w))
                if k not in xs: rep.bad(f"category:{k}", f"a rule is written for the category {k}, which {q['of']} does not have", at(w))
    for (w, kind, p), node in R.tests.items():
        for k in sorted(set(R.values(kind, node))):
            rep.count('comparisons'); e = form(C, p, k)
            if e: rep.bad(f"test:{p}:{k}", f"the {p} of a URL is compared with {k}, which it never is: {e}", at(w)); continue
            if p in HOSTS and (w, kind, p) not in C.run(**{HOSTS[p]: k}, web=True).tests: rep.bad(f"untested:{p}:{k}", f"the condition naming {k} is not reached by URLs of {k}", at(w))
    rep.floor('keys', 150); rep.floor('comparisons', 300)
    rep.sample(f"{len(R.taken)} maps and {len(R.tests)} tests of parts of a URL")
