"""The default configuration as a program: an abstract interpreter of its rules over what is assumed of flags and URL parts.
Conditions are evaluated to what they may be (true, false, an error), mappers and rules to what they may reach; common calls are followed.
Every construct this file does not know is taken to possibly run everything inside it."""
import json, os
from facts import Missing

class Broken(Missing): pass
def load(repo):
    p = os.path.join(repo, 'default-config.json')
    try: return json.load(open(p))
    except (OSError, ValueError) as e: raise Broken(f"default-config.json cannot be read: {e}")

def variant(x):
    """(variant, payload) of an externally tagged value."""
    if isinstance(x, str): return x, None
    if isinstance(x, dict) and len(x) == 1: return next(iter(x.items()))
    return None, x
def text(x): return json.dumps(x, sort_keys=True)
def lit(x):
    """The literal a string source stands for."""
    v, p = variant(x)
    if isinstance(x, str): return x
    return p if v == 'String' and isinstance(p, str) else None
def ref(x):
    """(kind, name) of a flag or variable reference."""
    if isinstance(x, str): return 'Params', x
    if isinstance(x, dict) and 'name' in x: return x.get('type', 'Params'), lit(x['name'])
    return None, None

PARTS_QUERY = ('Whole', 'Query', 'QueryParam', 'AfterQuery', 'BeforeQuery')
HARMLESS = {'None', 'RemoveQuery', 'RemoveQueryParam', 'RemoveQueryParams', 'AllowQueryParams', 'RemoveQueryParamsMatching', 'AllowQueryParamsMatching', 'SetHost', 'SetScratchpadFlag', 'SetScratchpadVar', 'ModifyScratchpadVar', 'Error', 'Debug'}
AS_PART = {'HostIs': 'Host', 'HostIsOneOf': 'Host', 'SubdomainIs': 'Subdomain', 'RegDomainIs': 'RegDomain', 'DomainIs': 'Domain', 'DomainMiddleIs': 'DomainMiddle', 'NotDomainSuffixIs': 'NotDomainSuffix', 'DomainSuffixIs': 'DomainSuffix', 'PathIs': 'Path'}
SINKS = {'HttpRequest', 'ExpandRedirect'}
DIRTY = {'set': False, 'prefixes': False}; CLEAN = {k: True for k in DIRTY}
def part_name(p): return variant(p)[0]

class Run:
    """One interpretation, under assumptions: {('flag', name): bool, ('part', text of the part): value}."""
    def __init__(self, conf, assume=None, suffixes=None):
        self.c = conf; self.L = suffixes; self.A = assume or {}; self.seen = []; self.calls = set(); self.stack = []; self.cycles = []; self.conds = 0; self.missing = []
        self.at = []; self.taken = {}; self.tests = {}; self.end = self.go(conf)
    # --- what is assumed of a part: (the one value it has or nothing, a test of the values it may have); nothing when it may be anything
    def fact(self, part):
        k = ('part', text(part))
        if k in self.A: return [self.A[k]], lambda v: v == self.A[k]
        if part == 'Whole' and self.A.get('web'): return None, lambda v: v.startswith('http')
        host, reg, mid = (self.A.get(x) for x in ('host', 'reg', 'middle')); L = self.L
        def known(v): return [v], lambda w: w == v
        if host:
            d = L.domain(host) if L else None
            if part == 'HostWithoutWWWDotPrefixAndFqdnPeriod': return known(host)
            if part in ('Host', 'NormalizedHost', 'Domain'): return None, lambda v: v.rstrip('.') in (host, 'www.' + host)
            if L is None: return (None, lambda v: host == v or host.endswith('.' + v)) if part == 'RegDomain' else None
            if part == 'RegDomain': return known(d)
            if part == 'DomainSuffix': return known(L.suffix(host))
            if part == 'DomainMiddle' and d: return known(d.split('.')[0])
        if reg:
            if part == 'RegDomain': return known(reg)
            if part == 'DomainMiddle': return known(reg.split('.')[0])
            if part == 'DomainSuffix': return known(reg.split('.', 1)[-1])
            if part == 'HostWithoutWWWDotPrefixAndFqdnPeriod': return None, lambda v: v == reg or v.endswith('.' + reg)
            if part in ('Host', 'NormalizedHost', 'Domain'): return None, lambda v: v.rstrip('.').endswith(reg)
        if mid:
            if part == 'DomainMiddle': return known(mid)
            if part == 'RegDomain': return None, lambda v: v.startswith(mid + '.')
            if part == 'HostWithoutWWWDotPrefixAndFqdnPeriod': return None, lambda v: v.startswith(mid + '.') or '.' + mid + '.' in v
        return None
    def match(self, m, f):
        """Whether a matcher may accept and may refuse what a part may be."""
        v, p = variant(m); one, may = f
        def of(xs):
            hit = any(may(x) for x in xs if isinstance(x, str))
            return hit, not (hit and one)
        if v == 'Always': return True, False
        if v == 'Never': return False, True
        if v == 'Not': t, n = self.match(p, f); return n, t
        if v in ('Any', 'All') and isinstance(p, list):
            rs = [self.match(y, f) for y in p]
            return (any(t for t, _ in rs), all(n for _, n in rs)) if v == 'Any' else (all(t for t, _ in rs), any(n for _, n in rs))
        if v == 'InSet' and lit(p) is not None: return of(self.c.get('params', {}).get('sets', {}).get(lit(p), ()))
        if v == 'IsOneOf' and isinstance(p, list): return of(p)
        if v == 'Is' and lit(p) is not None: return of([lit(p)])
        if v == 'Contains' and isinstance(p, dict) and one and lit(p.get('value')) is not None and p.get('where', 'Anywhere') in ('Anywhere', 'Start', 'End') and isinstance(one[0], str):
            x = lit(p['value']); b = {'Anywhere': x in one[0], 'Start': one[0].startswith(x), 'End': one[0].endswith(x)}[p.get('where', 'Anywhere')]
            return b, not b
        return True, True
    # --- reaching
    def reach(self, x, st): self.seen.append((tuple(self.at), x, dict(st)))
    def inside(self, *k):
        r = self
        class C:
            def __enter__(s): r.at.extend(k)
            def __exit__(s, *a): del r.at[len(r.at) - len(k):]
        return C()
    def scan(self, x, st):
        """Every value inside something that is evaluated."""
        if isinstance(x, list):
            for i, y in enumerate(x):
                with self.inside(i): self.scan(y, st)
        elif isinstance(x, dict):
            self.reach(x, st)
            v, p = variant(x)
            if v == 'IfFlag' and isinstance(p, dict) and 'flag' in p:
                k, n = ref(p['flag']); b = self.A.get(('flag', n)) if k == 'Params' else None
                for key in ('then', 'else'):
                    if b is not (key == 'else') and key in p:
                        with self.inside(v, key): self.scan(p[key], st)
                return
            if v == 'Common': self.call('strings', p, lambda y: self.scan(y, st)) if self.has('strings', p) else self.call_other(p, st)
            if v in ('If',) and isinstance(p, dict) and 'condition' in p:       # a modification
                t, f, e = self.cond(p['condition'], st)
                for key, b in (('then', t), ('else', f)):
                    if b and key in p:
                        with self.inside(v, key): self.scan(p[key], st)
                return
            for k, y in x.items():
                with self.inside(k): self.scan(y, st)
        elif isinstance(x, str): self.reach(x, st)
    def name_of(self, p): return lit(p) if not isinstance(p, dict) or 'name' not in p else lit(p['name'])
    def has(self, kind, p): return self.name_of(p) in self.c.get('commons', {}).get(kind, {})
    def call_other(self, p, st):
        for kind in ('string_modifications', 'string_matchers', 'char_matchers'):
            if self.has(kind, p): self.call(kind, p, lambda y: self.scan(y, st))
    def call(self, kind, p, f, none=None):
        n = self.name_of(p); self.calls.add((kind, n, text(p)))
        if n not in self.c.get('commons', {}).get(kind, {}): self.missing.append((kind, n)); return none
        if (kind, n) in self.stack: self.cycles.append((kind, n)); return none
        self.stack.append((kind, n)); at, self.at = self.at, self.at + [f"<{kind}: {n}>"]
        try: return f(self.c['commons'][kind][n])
        finally: self.stack.pop(); self.at = at
    # --- conditions: (may be true, may be false, may be an error)
    def cond(self, x, st):
        self.conds += 1
        v, p = variant(x)
        if isinstance(x, (dict, str)): self.reach(x, st)
        if v == 'Always': return True, False, False
        if v == 'Never': return False, True, False
        if v == 'Error': return False, False, True
        if v == 'Debug':
            with self.inside(v): return self.cond(p, st)
        if v in AS_PART:                                                        # what is short for a test of a part
            part = AS_PART[v]
            with self.inside(v): return self.cond({'PartIsOneOf': {'part': part, 'values': p}} if v.endswith('OneOf') else {'PartIs': {'part': part, 'value': p}}, st)
        if v in ('All', 'Any') and isinstance(p, list):
            stop = err = False; on = True
            for i, y in enumerate(p):
                if not on: break
                with self.inside(v, i): t, f, e = self.cond(y, st)
                err |= e
                if v == 'All': stop |= f; on = t
                else: stop |= t; on = f
            return (on, stop, err) if v == 'All' else (stop, on, err)
        if v == 'Not':
            with self.inside(v): t, f, e = self.cond(p, st)
            return f, t, e
        if v == 'If' and isinstance(p, dict) and 'if' in p:
            with self.inside(v, 'if'): t, f, e = self.cond(p['if'], st)
            out = [False, False, e]
            for key, b in (('then', t), ('else', f)):
                if b:
                    with self.inside(v, key): r = self.cond(p[key], st)
                    out = [a or b2 for a, b2 in zip(out, r)]
            return tuple(out)
        if v == 'FlagIsSet':
            k, n = ref(p)
            if k == 'Params' and ('flag', n) in self.A: b = self.A[('flag', n)]; return b, not b, False
            return True, True, n is None
        inner = None
        if isinstance(x, dict) and set(x) & {'TreatErrorAsPass', 'TreatErrorAsFail'}:
            v = next(k for k in x if k.startswith('TreatErrorAs')); p = x[v]
            y = {k: w for k, w in p.items() if k != 'filter'} if isinstance(p, dict) and 'filter' in p else p
            with self.inside(v): t, f, e = self.cond(y, st)
            kept = e and isinstance(p, dict) and 'filter' in p
            return (t or e, f, kept) if v.endswith('Pass') else (t, f or e, kept)
        if v == 'TryElse' and isinstance(p, dict) and 'try' in p:
            with self.inside(v, 'try'): t, f, e = self.cond(p['try'], st)
            if not e: return t, f, e
            with self.inside(v, 'else'): t2, f2, e2 = self.cond(p['else'], st)
            return t or t2, f or f2, e2
        if v in ('PartMap', 'StringMap') and isinstance(p, dict) and 'map' in p:
            out = [False, False, True]; self.scan({k: w for k, w in p.items() if k not in ('map', 'if_null', 'else')}, st)
            bs, none = self.branches(v, p)
            for key, y in bs:
                with self.inside(v, key): r = self.cond(y, st)
                out = [a or b for a, b in zip(out, r)]
            if none: out[1] = True
            return tuple(out)
        if v == 'PartIs' and isinstance(p, dict) and ('part', text(p.get('part'))) in self.A and (lit(p.get('value')) is not None or p.get('value') is None):
            b = self.A[('part', text(p['part']))] == p.get('value'); return b, not b, False
        if isinstance(p, dict) and 'part' in p and v in ('PartIs', 'PartIsOneOf', 'PartMatches'): self.tests[(self.here(), v, text(p['part']))] = p
        f = self.fact(p['part']) if isinstance(p, dict) and 'part' in p else None
        if f:
            if v == 'PartIs' and lit(p.get('value')) is not None: b = f[1](lit(p['value'])); return b, not (b and f[0]), False
            if v == 'PartIs' and p.get('value', 0) is None: return False, True, False
            if v == 'PartIsOneOf' and isinstance(p.get('values'), list):
                t, n = self.match({'IsOneOf': p['values']}, f); return t, n, False
            if v == 'PartMatches' and 'matcher' in p:
                with self.inside(v): self.scan(p, st)
                t, n = self.match(p['matcher'], f); return t, n, True
        if v == 'Common':
            r = self.call('conditions', p, lambda y: self.cond(y, st))
            self.scan(p.get('args') if isinstance(p, dict) else None, st); return r or (True, True, True)
        with self.inside(v or '?'): self.scan(p, st)
        return True, True, True
    def exempt(self, x):
        """Whether the condition can only fail for URLs whose tracking parameters are kept on purpose."""
        v, p = variant(x)
        if v == 'All' and isinstance(p, list): return all(self.exempt(y) for y in p)
        if v in ('TreatErrorAsFail', 'TreatErrorAsPass') and isinstance(p, dict): return self.exempt({k: y for k, y in p.items() if k != 'filter'})
        if v == 'Not':
            w, q = variant(p)
            if w == 'Not': return self.exempt(q)
            if w == 'RegDomainIs': return q is None
            if w == 'TreatErrorAsFail' and isinstance(q, dict): return self.exempt({'Not': {k: y for k, y in q.items() if k != 'filter'}})
            if w == 'Any' and isinstance(q, list): return all(self.exempt({'Not': y}) for y in q)
            if w == 'PartMatches' and isinstance(q, dict): return q.get('part') == 'RegDomain' and q.get('matcher') == {'InSet': 'utps-reg-domain-whitelist'}
            if w == 'PartIs' and isinstance(q, dict): return q.get('part') == 'RegDomain' and q.get('value', 0) is None
        return False
    def branches(self, v, p):
        """The branches of a map that may be taken, and whether none may be."""
        alts = [(f"map.{k}", y) for k, y in p['map'].items()] + [(k, p[k]) for k in ('if_null', 'else') if p.get(k) is not None]
        f = self.fact(p['part']) if v.startswith('Part') and 'part' in p else None
        part = p.get('part')
        if v.startswith('String'):
            w, q = variant(p.get('value'))
            while w == 'ErrorToNone': w, q = variant(q)
            part, xs = None, self.c.get('params', {}).get('named_partitionings', {}).get(lit(q.get('name')), {}) if w == 'ParamsNamedPartitioning' and isinstance(q, dict) else {}
            e, r = variant(q.get('element')) if xs else (None, None)
            if e == 'Part':
                part = {'category': r, 'of': lit(q['name'])}; g = self.fact(r)
                if g and g[0]: x = next((k for k, y in xs.items() if g[0][0] in y), None); f = [x], None
        if f and f[0]:
            x = f[0][0]; y = p['map'].get(x) if x is not None else p.get('if_null'); k = f"map.{x}"
            if y is None: y = p.get('else'); k = 'else'
            alts = [(k, y)] if y is not None else []; none = y is None
        else:
            if f: alts = [(k, y) for k, y in alts if not k.startswith('map.') or f[1](k[4:])]
            none = p.get('else') is None
        if part is not None: self.taken.setdefault((self.here(), v, text(part)), (p, set()))[1].update(k[4:] for k, _ in alts if k.startswith('map.'))
        return alts, none
    def values(self, v, p):
        """The values a test of a part names."""
        if v == 'PartIs': return [lit(p.get('value'))] if lit(p.get('value')) is not None else []
        if v == 'PartIsOneOf': return [x for x in p.get('values') or [] if isinstance(x, str)]
        out = []
        def go(m):
            w, q = variant(m)
            if w in ('Any', 'All') and isinstance(q, list): [go(y) for y in q]
            if w == 'Not': go(q)
            if w == 'InSet' and lit(q): out.extend(x for x in self.c.get('params', {}).get('sets', {}).get(lit(q), ()) if isinstance(x, str))
            if w == 'IsOneOf' and isinstance(q, list): out.extend(x for x in q if isinstance(x, str))
            if w == 'Is' and lit(q): out.append(lit(q))
        go(p.get('matcher')); return out
    def here(self):
        """Where in the file this is, whoever called it."""
        i = max((j for j, x in enumerate(self.at) if isinstance(x, str) and x.startswith('<')), default=0)
        return tuple(self.at[i:])
    # --- states: which of the universal tracking parameters (those of the set, those of the prefixes) have been removed from the URL as it is
    def join(self, a, b):
        if a is None or b is None: return a or b
        return {k: a[k] and b[k] for k in a}
    def branch(self, st, c, then, other):
        t, f, e = self.cond(c, st)
        a, b = dict(st) if t else None, dict(st) if f else None
        if b is not None and self.exempt(c): b.update(CLEAN)
        if a is not None and self.exempt({'Not': c}): a.update(CLEAN)
        if a is not None: a = then(a)
        if b is not None and other is not None: b = other(b)
        return self.join(a, b)
    def alternatives(self, xs, st):
        """The first that does not fail."""
        out = None
        for k, y in xs:
            n = len(self.seen)
            with self.inside(k): r = self.mapper(y, dict(st))
            out = self.join(out, r)
            if any(isinstance(z, (dict, str)) and self.writes(z) for _, z, _ in self.seen[n:]): st = {**st, **DIRTY}
        return out, st
    def writes(self, x):
        """Whether a mapper may bring tracking parameters back."""
        v, p = variant(x)
        if v == 'SetPart' and isinstance(p, dict) and 'value' in p and p['value'] is None: return False
        if v in ('SetPart', 'ModifyPart') and isinstance(p, dict): return part_name(p.get('part')) in PARTS_QUERY or part_name(p.get('part')) is None
        if v in ('CopyPart', 'MovePart') and isinstance(p, dict): return part_name(p.get('to')) in PARTS_QUERY or part_name(p.get('to')) is None
        return v in ('ExpandRedirect', 'GetUrlFromQueryParam', 'Join', 'CacheUrl')
    def cleans(self, p):
        """Which of the universal tracking parameters a matcher accepts all of."""
        v, q = variant(p)
        if v == 'Always': return {'set', 'prefixes'}
        if v == 'Any' and isinstance(q, list): return set().union(*(self.cleans(y) for y in q))
        if v == 'InSet' and lit(q) == 'utps': return {'set'}
        if v == 'ContainsAnyInList' and isinstance(q, dict) and q.get('list') == 'utp-prefixes' and q.get('where', 'Anywhere') in ('Start', 'Anywhere'): return {'prefixes'}
        return set()
    def mapper(self, x, st):
        if st is None: return None
        v, p = variant(x)
        if isinstance(x, (dict, str)): self.reach(x, st)
        if v == 'Debug' and p is not None:
            with self.inside(v): return self.mapper(p, st)
        if v == 'All' and isinstance(p, list):
            for i, y in enumerate(p):
                with self.inside(v, i): st = self.mapper(y, st)
            return st
        if v == 'If' and isinstance(p, dict) and 'condition' in p:
            def arm(k):
                def f(s):
                    with self.inside(v, k): return self.mapper(p[k], s)
                return f if p.get(k) is not None else None
            return self.branch(st, p['condition'], arm('mapper') or (lambda s: s), arm('else_mapper'))
        if v == 'ConditionChain' and isinstance(p, list): return self.chain(p, 0, st)
        if v in ('PartMap', 'StringMap') and isinstance(p, dict) and 'map' in p: return self.map(v, p, st, self.mapper)
        if v == 'Rules' and isinstance(p, list): return self.rules(p, st)
        if v == 'Rule':
            with self.inside(v): return self.rule(p, st)
        if v == 'FirstNotError' and isinstance(p, list): return self.alternatives(list(enumerate(p)), st)[0]
        if v == 'TryElse' and isinstance(p, dict) and 'try' in p: return self.alternatives([('try', p['try']), ('else', p['else'])], st)[0]
        if v in ('IgnoreError', 'RevertOnError'):
            with self.inside(v): out, s2 = self.alternatives([('', p)], st)
            return self.join(out, s2) if v == 'IgnoreError' else out
        if v == 'Retry' and isinstance(p, dict) and 'mapper' in p: return self.alternatives([('mapper', p['mapper'])] * 2, st)[0]
        if v == 'CacheUrl' and isinstance(p, dict) and 'mapper' in p:
            self.scan(p.get('category'), st)
            with self.inside(v, 'mapper'): self.mapper(p['mapper'], st)
            return {**st, **DIRTY}
        if v == 'Common':
            if isinstance(p, dict): self.scan(p.get('args'), st)
            return self.call('mappers', p, lambda y: self.mapper(y, st), st)
        if v == 'Error': return None
        if isinstance(p, (dict, list)) or p is not None:
            with self.inside(v or '?'): self.scan(p, st)
        if v in ('RemoveQuery', 'AllowQueryParams'): return {**st, **CLEAN}
        if v == 'RemoveQueryParamsMatching': return {**st, **{k: True for k in self.cleans(p)}}
        if v in HARMLESS or v in ('SetPart', 'ModifyPart', 'CopyPart', 'MovePart') and not self.writes(x): return st
        return {**st, **DIRTY}
    def chain(self, xs, i, st):
        if i == len(xs) or st is None: return st
        y = xs[i]
        def then(s):
            with self.inside('ConditionChain', i): return self.mapper(y['mapper'], s)
        return self.branch(st, y['condition'], then, lambda s: self.chain(xs, i + 1, s))
    def map(self, v, p, st, f):
        self.scan({k: w for k, w in p.items() if k not in ('map', 'if_null', 'else')}, st)
        bs, none = self.branches(v, p); out = dict(st) if none else None
        for k, y in bs:
            with self.inside(v, k): out = self.join(out, f(y, dict(st)))
        return out
    def rules(self, xs, st):
        for i, y in enumerate(xs):
            with self.inside(i): st = self.rule(y, st)
        return st
    def rule(self, x, st):
        if st is None: return None
        if isinstance(x, dict): self.reach(x, st)
        v, p = variant(x)
        if isinstance(x, dict) and 'condition' in x and 'mapper' in x:
            def then(s):
                with self.inside('mapper'): return self.mapper(x['mapper'], s)
            def other(s):
                with self.inside('else_mapper'): return self.mapper(x['else_mapper'], s)
            return self.branch(st, x['condition'], then, other if x.get('else_mapper') is not None else None)
        if v == 'Mapper':
            with self.inside(v): return self.mapper(p, st)
        if v == 'Rules' and isinstance(p, list): return self.rules(p, st)
        if v == 'Repeat' and isinstance(p, dict) and 'rules' in p:
            a = st
            for _ in range(2):
                with self.inside(v): b = self.rules(p['rules'], dict(a))
                a = self.join(a, b)
            return a
        if v == 'SharedCondition' and isinstance(p, dict):
            def then(s):
                with self.inside(v): return self.rules(p['rules'], s)
            return self.branch(st, p['condition'], then, None)
        if v in ('PartMap', 'StringMap') and isinstance(p, dict) and 'map' in p: return self.map(v, p, st, self.mapper)
        if v in ('PartRuleMap', 'StringRuleMap') and isinstance(p, dict) and 'map' in p: return self.map(v, p, st, self.rule)
        if v in ('PartRulesMap', 'StringRulesMap') and isinstance(p, dict) and 'map' in p: return self.map(v, p, st, self.rules)
        if v == 'Common':
            if isinstance(p, dict): self.scan(p.get('args'), st)
            return self.call('rules', p, lambda y: self.rule(y, st), st)
        self.scan(x, st); return {**st, **DIRTY}
    def go(self, c): return self.rules(c.get('rules', []), dict(DIRTY))

def where(at): return 'default-config.json: ' + ' / '.join(str(x) for x in at)
def contains(x, f):
    if f(x): return True
    return any(contains(y, f) for y in (x.values() if isinstance(x, dict) else x if isinstance(x, list) else ()))
def sinks(run): return [(at, x, st) for at, x, st in run.seen if variant(x)[0] in SINKS]
