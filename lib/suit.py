"""The suitability test: an implementation of `Suitability` refuses what must never be in a default configuration and passes the test on to every part
that could hold such a thing.  Decided per implementation, from its paths: the paths that return and the places where it panics."""
import re
import domain
from interp import *

NEVER = {'UrlPart': {'Debug'}, 'Mapper': {'Debug', 'Custom'}, 'Condition': {'Debug', 'Custom'}, 'StringModification': {'Debug', 'Custom'}, 'CharMatcher': {'Debug'}, 'Rule': {'Custom'},
         'StringLocation': {'Debug'}, 'StringSource': {'Debug', 'Custom'}, 'StringMatcher': {'Debug', 'Custom'}}
TRAIT = 'util::suitability::Suitability'
CONTAINERS = ('alloc::boxed::Box', 'core::option::Option', 'alloc::vec::Vec', 'std::collections::hash::map::HashMap', 'std::collections::hash::set::HashSet', 'alloc::borrow::Cow', 'alloc::rcs::rc::Rc', 'alloc::rcs::arc::Arc')
OWN = {'FlagRef', 'VarRef', 'RegexParts', 'CommandConfig'}   # refuse by rules of their own
# what a reference by name may name: the documentation that must have the name, by kind of reference
REFS = {'FlagRef': {'Params': 'flags', 'Common': None, 'Scratchpad': None},
        'VarRef': {'Params': 'vars', 'JobContext': 'job_context.vars', 'TaskContext': 'task_context.vars', 'Env': 'environment_vars', 'Common': None, 'Scratchpad': None}}
# fields that name a documented thing: the set of documentation that must have the name when it is written out
DOCUMENTED = {('StringMatcher', 'InSet', '0'): 'sets', ('StringMatcher', 'ContainsAnyInList', 'list'): 'lists', ('StringSource', 'ParamsMap', 'name'): 'maps', ('StringSource', 'ParamsNamedPartitioning', 'name'): 'named_partitionings'}

def last(p): return p.split('::')[-1]
def impls(F): return [b for b in F.local if b['name'] == 'assert_suitability' and b.get('impl_trait') == TRAIT and b['dk'] == 'AssocFn']
def implementors(F): return {F.ty(b['impl_self']).get('adt') for b in impls(F)} - {None}
def args_of(F, i):
    t = F.ty(i)
    if t.get('k') in ('ref', 'ptr', 'slice', 'array'): return [t['to']]
    return [a for a in t.get('args', []) if isinstance(a, int)] if t.get('k') in ('adt', 'tuple') else []
def ty_matters(F, i, m):
    t = F.ty(i)
    return t.get('k') == 'param' or t.get('k') == 'adt' and t['adt'] in m or any(ty_matters(F, a, m) for a in args_of(F, i))
def matters(F):
    """Types that can refuse, by themselves or through a part."""
    im = {p for p in implementors(F) if p in F.adts}
    m = {p for p in F.adts if last(p) in OWN or last(p) in NEVER}
    while True:
        n = {p for p in F.adts if p not in m and p in im and any(ty_matters(F, f['t'], m) for v in F.adts[p]['variants'] for f in v['f'])}
        if not n: return m
        m |= n

def events(entry):
    base = domain.events()
    def f(c):
        if c['name'] == 'assert_suitability' and not c['path'].endswith('Config::assert_suitability'): return 'assert_suitability'
        return base(c)
    return f
def run(F, b, facts=None, maxlen=2):
    opq = domain.opaque()
    I = Interp(F, events=events(b['path']), opaque=opq, models=domain.MODELS, maxlen=maxlen, budget=60000, maxev=60)
    return I, I.run(b, [tok('self'), tok('config')][:b['argc']], facts=facts or {})

def strip(t): return re.sub(r'!+', '', t)
def visited(I, s, term, container):
    """The part was handed on: itself, or what it holds one by one."""
    for e in s.events:
        a = strip(str(e[1] if isinstance(e, tuple) else e))
        if a == term: return True
        if container and a.startswith(term) and a != term: return True
    return False

class Uncovered(Exception): pass
def ev_terms(s): return {strip(str(e))[len('assert_suitability('):].rsplit(', ', 1)[0] for e in s.events if str(e).startswith('assert_suitability(')}
def cover(F, m, s, ev, i, x):
    """On this path the part `x` of type `i` is tested: handed on, or its own parts are; raises the part that is not."""
    t = F.ty(i)
    if not ty_matters(F, i, m) or x in ev: return
    k = t.get('k')
    if k == 'adt':
        a = t['adt']; A = args_of(F, i)
        if a in ('alloc::boxed::Box', 'alloc::rcs::rc::Rc', 'alloc::rcs::arc::Arc', 'alloc::borrow::Cow'): return cover(F, m, s, ev, A[0], x)
        if a == 'core::option::Option':
            f = s.facts.get(x)
            if f == 'None': return
            if f == 'Some': return cover(F, m, s, ev, A[0], x + '.Some.0')
            raise Uncovered(x)
        if last(a) in ('Vec', 'HashSet'): return seq(s, x, lambda y: cover(F, m, s, ev, A[0], y))
        if last(a) == 'HashMap':
            for j, half in enumerate(('keys', 'values')):     # in pairs, or the keys and the values by themselves
                try: seq(s, x, lambda y: cover(F, m, s, ev, A[j], f"{y}.{j}"))
                except Uncovered as e:
                    try: seq(s, f"HashMap::{half}({x})", lambda y: cover(F, m, s, ev, A[j], y))
                    except Uncovered: raise e
            return
        if a in F.adts and F.adts[a]['crate'] == F.crate: return parts(F, m, s, ev, F.adts[a], x)
    elif k in ('slice', 'array'): return seq(s, x, lambda y: cover(F, m, s, ev, args_of(F, i)[0], y))
    elif k == 'ref': return cover(F, m, s, ev, t['to'], x)
    elif k == 'tuple':
        for j, a in enumerate(args_of(F, i)): cover(F, m, s, ev, a, f"{x}.{j}")
        return
    raise Uncovered(x)
def seq(s, x, item):
    n = 0
    while s.facts.get(f"has({x},{n})") is True: item(f"{x}[{n}]"); n += 1
    if s.facts.get(f"has({x},{n})") is not False and s.facts.get(f"empty({x})") is not True: raise Uncovered(f"{x}[{n}]")
def named(s, x):
    """The variants the value may still have on this path: one, or all but some."""
    f = s.facts.get(x)
    return f if isinstance(f, str) else None
def parts(F, m, s, ev, adt, x):
    n = last(adt['path'])
    if n in OWN: raise Uncovered(x)
    if adt['kind'] != 'enum':
        for f in adt['variants'][0]['f']: cover(F, m, s, ev, f['t'], f"{x}.{f['n']}")
        return
    f = named(s, x)
    if f is None and x != 'self':
        out = ruled_out(s, x)
        if not out or any(ty_matters(F, g['t'], m) for v in adt['variants'] if v['n'] not in out for g in v['f']) or NEVER.get(n, set()) - out: raise Uncovered(x)
    vs = [v for v in adt['variants'] if f is None and v['n'] not in ruled_out(s, x) or v['n'] == f]
    for v in vs:
        if v['n'] in NEVER.get(n, ()): raise Uncovered(f"{x} (the variant {v['n']})")
        for g in v['f']:
            p = f"{x}.{v['n']}.{g['n']}"; d = DOCUMENTED.get((n, v['n'], g['n']))
            if d:
                w = s.facts.get(p)
                if w == 'String':
                    if s.facts.get(f"HashMap::get(config.docs.{d},{p}.String.0)") != 'Some': raise Uncovered(f"the name {p} in the documented {d}")
                    continue
                if w is None and 'String' not in ruled_out(s, p): raise Uncovered(f"the name {p} in the documented {d}")
            cover(F, m, s, ev, g['t'], p)
def ruled_out(s, x):
    out = set()
    for k, v in s.facts.items():
        if k == '¬' + x: out |= set(v) if isinstance(v, (set, frozenset, tuple, list)) else {v}
    return out

def check(rep, F, maxlen=2):
    from runner import where
    m = matters(F); seen = {}
    for b in impls(F):
        t = F.ty(b['impl_self']); a = t.get('adt'); n = last(a) if a else F.tys(b['impl_self'])
        if n in ('FlagRef', 'VarRef', 'RegexParts'): continue
        rep.count('implementations')
        I, res = run(F, b, maxlen=maxlen)
        key = f"{F.tys(b['impl_self'])}"
        if I.cuts and not any(last(c) in n for c in CONTAINERS) and not key.startswith('&['): rep.note(f"{key}: loops followed up to {maxlen} elements")
        own = a in F.adts and F.adts[a]['crate'] == F.crate
        for s, rv in res:
            rep.count('paths')
            ev = ev_terms(s) - ({'self'} if own else set())
            try:
                if n == 'CommandConfig': raise Uncovered('an external command')
                if own: parts(F, m, s, ev, F.adts[a], 'self')
                else: cover(F, m, s, ev, b['impl_self'], 'self')
            except Uncovered as e:
                rep.bad(f"{key}:{e}", f"the suitability test of {key} passes over {e}", where(b))
        for what, args, facts, stack, sp in I.panics:
            v = facts.get('self')
            if n == 'CommandConfig' or isinstance(v, str) and v in NEVER.get(n, ()): continue
            d = [(p, dn) for (tn, vn, fn), dn in DOCUMENTED.items() for p in [f"self.{vn}.{fn}"] if tn == n and vn == v]
            if any(facts.get(p) == 'String' and facts.get(f"HashMap::get(config.docs.{dn},{p}.String.0)") == 'None' for p, dn in d): continue
            rep.bad(f"{key}:refuses", f"the suitability test of {key} refuses {v or 'it'} without a reason ({what} where {({k: w for k, w in facts.items() if not k.startswith('iv:')})})"[:600], where(b)); break
        if own and F.adts[a]['kind'] == 'enum':
            rep.count('obligations', len(F.adts[a]['variants']))
            got = {s.facts.get('self') for s, rv in res}
            for v in F.adts[a]['variants']:
                if v['n'] in NEVER.get(n, ()) or None in got or v['n'] in got: continue
                rep.bad(f"{key}:{v['n']}:never", f"the suitability test of {key} never passes {v['n']}", where(b))
        else:
            rep.count('obligations')
            if not res and n != 'CommandConfig': rep.bad(f"{key}:never", f"the suitability test of {key} never passes", where(b))

def by_eq(f, x, kinds):
    """What comparisons of `x` with its fieldless variants say about it."""
    yes = [k for k in kinds for e, v in f.items() if v is True and re.fullmatch(rf"eq\((?:[\w:]*::{k},{x}|{x},[\w:]*::{k})\)", e)]
    no = {k for k in kinds for e, v in f.items() if v is False and re.fullmatch(rf"eq\((?:[\w:]*::{k},{x}|{x},[\w:]*::{k})\)", e)}
    left = set(kinds) - no - set(f.get('¬' + x, ()))
    if x in f: return f
    if yes or len(left) == 1: return {**f, x: (yes or list(left))[0]}
    return {**f, '¬' + x: frozenset(set(kinds) - left)} if no else f

def ref(rep, F, b, n):
    """A flag or variable is written out by name, and documented where its kind is."""
    from runner import where
    I, res = run(F, b); T = REFS[n]; got = set()
    lost = set(T) ^ {v['n'] for v in F.adts[[p for p in F.adts if last(p) == n.replace('Ref', 'Type')][0]]['variants']}
    if lost: rep.bad(f"{n}:kinds", f"{n} has kinds of reference with no rule, or lacks ones that have: {sorted(lost)}", where(b)); return
    full = lambda f: by_eq(f, 'self.type', T)
    def known(f): return T[f['self.type']] is None or f.get(f"HashMap::get(config.docs.{T[f['self.type']]},self.name.String.0)") == 'Some'
    for s, rv in res:
        rep.count('paths'); f = s.facts = full(s.facts); ts = [f['self.type']] if 'self.type' in f else sorted(set(T) - ruled_out(s, 'self.type'))
        for t in ts:
            got.add(t)
            if f.get('self.name') != 'String': rep.bad(f"{n}:{t}:literal", f"the suitability test passes a {n} of kind {t} whose name is not written out", where(b))
            elif not known({**f, 'self.type': t}): rep.bad(f"{n}:{t}:documented", f"the suitability test passes a {n} of kind {t} whose name is not in docs.{T[t]}", where(b))
    for t in sorted(set(T) - got): rep.bad(f"{n}:{t}:never", f"the suitability test never passes a {n} of kind {t}", where(b))
    for what, args, f, stack, sp in I.panics:
        f = full(f)
        if f.get('self.name') != 'String' and ('self.name' in f or '¬self.name' in f): continue
        t = f.get('self.type')
        if t in T and T[t] and f.get(f"HashMap::get(config.docs.{T[t]},self.name.String.0)") == 'None': continue
        rep.bad(f"{n}:{t}:refuses", f"the suitability test refuses a {n} of kind {t} that is written out and documented", where(b))
    rep.count('obligations', len(T))
def regex(rep, F, b):
    from runner import where
    I, res = run(F, b); built = lambda f, v: any(k.startswith('RegexBuilder::build(') and 'RegexBuilder::new(self.pattern)' in k and w == v for k, w in f.items())
    rep.count('obligations')
    if not res: rep.bad('RegexParts:never', 'the suitability test never passes a regex', where(b))
    for s, rv in res:
        rep.count('paths')
        if not built(s.facts, 'Ok'): rep.bad('RegexParts:passes', 'the suitability test passes a regex that was not compiled, or does not compile', where(b))
    for what, args, f, stack, sp in I.panics:
        if not built(f, 'Err'): rep.bad('RegexParts:refuses', 'the suitability test refuses a regex that compiles', where(b))
def entry(rep, F):
    """`Config::assert_suitability` tests the whole configuration against its own documentation."""
    from runner import where
    from facts import Missing
    bs = [b for b in F.local if b['path'].endswith('Config::assert_suitability') and 'impl_trait' not in b]
    if not bs: raise Missing('Config::assert_suitability')
    I = Interp(F, events=lambda c: 'assert_suitability' if c['name'] == 'assert_suitability' else None, opaque=domain.opaque(), models=domain.MODELS, maxlen=2, budget=20000, maxev=60)
    for s, rv in I.run(bs[0], [tok('self')]):
        rep.count('paths'); ev = [strip(str(e)) for e in s.events]
        if 'assert_suitability(self, self)' not in ev: rep.bad('Config:entry', f"Config::assert_suitability does not test the configuration against its own documentation (it does {ev})", where(bs[0]))
    if I.panics: rep.bad('Config:refuses', 'Config::assert_suitability refuses before it tests', where(bs[0]))
    rep.count('obligations')
def suitability(rep, F, maxlen):
    from facts import Missing
    check(rep, F, maxlen); entry(rep, F)
    for n in ('FlagRef', 'VarRef', 'RegexParts'):
        bs = [b for b in impls(F) if last(F.ty(b['impl_self']).get('adt', '')) == n]
        if not bs: raise Missing(f"the suitability test of {n}")
        ref(rep, F, bs[0], n) if n in REFS else regex(rep, F, bs[0])
    for n in NEVER:
        a = [p for p in F.adts if last(p) == n and F.adts[p]['crate'] == F.crate]
        if not a: raise Missing(n)
        gone = NEVER[n] - {v['n'] for v in F.adts[a[0]]['variants']}
        if gone: raise Missing(f"{n}::{sorted(gone)[0]}")
