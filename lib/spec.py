"""Specification replay.

A specification is a small Python function that states, for one variant, which sub-evaluations the documentation allows
and what the outcome is, in terms of provenance tokens.  It is replayed against *every* abstract path the interpreter
finds in the code: choices follow the facts recorded on the path, each sub-evaluation must be an event of the path with
the right operands, no event may be left over, and the result and the final URL/scratchpad must agree.
"""
import re
from interp import Interp, State, Budget, tok, const, UNIT, Missing

class Bad(Exception): pass
class Ret(Exception):
    def __init__(self, v): self.v = v

class Err:
    """An `Err(..)` that must carry each of the named tokens / error-variant names."""
    def __init__(self, *carries, any=False): self.carries = carries
    def __repr__(self): return 'Err(carrying ' + ', '.join(self.carries) + ')' if self.carries else 'Err(..)'
class Any:
    def __repr__(self): return '(anything)'

STATE_FIELDS = ('url', 'scratchpad', 'common_args', 'context', 'job_context', 'params', 'commons', 'cache')
ORDERED = {'Mapper::apply', 'Rule::apply', 'Rules::apply', 'StringModification::apply', 'UrlPart::set', 'Cache::write', 'sleep'}

LITERAL = re.compile(r"eq\(('(?:[^'\\]|\\.)*'),(.+)\)$", re.S)
class Ctx:
    def __init__(self, I, st, rv, decisions, ts='ts'):
        self.I = I; self.st = st; self.rv = rv; self.dec = decisions; self.di = 0
        self.left = list(st.events); self.last = 0
        self.local = {}
        self.S = {f: f"{ts}.{f}" for f in STATE_FIELDS}; self.S['to'] = 'to'; self.S['self'] = 'self'; self.S['purl'] = 'url'
        self.check_err_state = False
        self.trace = []
    # ---- knowledge
    def fact(self, k):
        if k in self.st.facts: return self.st.facts[k]
        if k in self.local: return self.local[k]
        m = LITERAL.match(k)
        if m:                                  # equal to one literal, so not to another
            for q, v in list(self.st.facts.items()) + list(self.local.items()):
                n = LITERAL.match(q) if v is True else None
                if n and n.group(2) == m.group(2) and n.group(1) != m.group(1): return False
        return None
    def choose(self, key, options):
        f = self.fact(key)
        if f is not None:
            if f in options: return f
            raise Bad(f"`{key}` is {f}, expected one of {options}")
        neg = self.st.facts.get('¬' + key)
        if neg: options = [o for o in options if o not in neg]
        if len(options) == 1: self.local[key] = options[0]; return options[0]
        if self.di >= len(self.dec): self.dec.append([0, len(options)])
        i = self.dec[self.di][0]; self.di += 1
        self.local[key] = options[i]
        return options[i]
    def truth(self, key): return self.choose(key, [True, False])
    def some(self, t): return self.choose(t, ['Some', 'None']) == 'Some'
    def ok(self, t): return self.choose(t, ['Ok', 'Err']) == 'Ok'
    def try_(self, t):
        if self.ok(t): return t + '.Ok.0'
        raise Ret(Err(t + '.Err.0'))
    def try_bool(self, t): return self.truth(self.try_(t))
    def try_some(self, t, missing):
        x = self.try_(t)
        if self.some(x): return x + '.Some.0'
        raise Ret(Err(missing))
    def ret(self, v): raise Ret(v)
    def err(self, *c): raise Ret(Err(*c))
    def iter(self, name):
        i = 0
        while True:
            if not self.truth(f"has({name},{i})"): return
            yield f"{name}[{i}]"
            i += 1
            if i > self.I.maxlen: return
    def eq(self, a, b):
        if a == b: return True
        return self.truth('eq(%s,%s)' % tuple(sorted((a, b))))
    def alias(self, *names):
        """Equivalent accessors: the one this path uses."""
        if not hasattr(self, '_all'):
            self._all = list(self.st.facts) + [str(e) for e in self.st.events] + [self.norm(self.rv)]
        for n in names:
            if any(n in k for k in self._all): return n
        return names[0]
    def is_some(self, t):
        for k in (t, f"is({t},Some)"):
            f = self.st.facts.get(k)
            if f is not None: return f in ('Some', True)
        if t.startswith('Url::has_host'): return self.truth(t)
        if f"is({t},None)" in self.norm(self.rv) or self.st.facts.get(f"is({t},None)") is not None: return not self.truth(f"is({t},None)")
        return self.truth(f"is({t},Some)") if f"is({t},Some)" in self.norm(self.rv) else self.some(t)
    def bool(self, b): return 'Ok(true)' if b else 'Ok(false)'
    def contains(self, coll, x):
        for k in (f"HashSet::contains({coll},{x})", f"is(HashMap::get({coll},{x}),Some)", f"is(HashSet::get({coll},{x}),Some)"):
            if any(k in y for y in self.st.facts) or k in self.norm(self.rv): return self.truth(k)
        if self.fact(f"has({coll},0)") is not None:       # compared with every element instead
            return any([self.eq(e, x) for e in self.iter(coll)]) if all(self.fact('eq(%s,%s)' % tuple(sorted((e, x)))) is not True for e in self.iter(coll)) else True
        return self.truth(f"HashSet::contains({coll},{x})")
    def lt(self, a, b):
        f = self.fact(f"lt({a},{b})")
        if f is not None: return f
        va, vb = (self.fact(x) if isinstance(self.fact(x), int) else int(x) if re.match(r'-?\d+$', x) else None for x in (a, b))
        if va is not None and vb is not None: return va < vb
        for x, y, sw in ((a, b, False), (b, a, True)):
            try: k = int(x)
            except ValueError: continue
            lo, hi = self.st.facts.get('iv:' + y, (None, None))
            if not sw:
                if lo is not None and lo > k: return True
                if hi is not None and hi <= k: return False
            else:
                if hi is not None and hi < k: return True
                if lo is not None and lo >= k: return False
        return self.truth(f"lt({a},{b})")
    def opt_term(self, t):
        f = self.fact(t)
        return 'None' if f == 'None' else (lambda e: e in (t, f"Some({t}.Some.0)"))
    def set_url(self, t): self.S['url'] = t.replace('{}', self.S['url']); return 'Ok(())'
    def set_sp(self, t): self.S['scratchpad'] = self.S['scratchpad'] + '{' + t + '}'; return 'Ok(())'
    def both_eq(self, *pairs):
        """Conjunction of equalities; a path may stop at the first difference it finds, whichever that is."""
        fs = [self.fact('eq(%s,%s)' % tuple(sorted(p))) for p in pairs]
        if any(f is False for f in fs): return False
        return all([self.eq(*p) for p in pairs])
    def opt_eq(self, a, b):
        """Two Option terms; 'Some(x)'/'None' literals allowed."""
        def split(x):
            if x == 'None': return None
            if x.startswith('Some(') and x.endswith(')'): return x[5:-1]
            return x + '.Some.0' if self.some(x) else None
        x, y = split(a), split(b)
        if x is None or y is None: return x is None and y is None
        return self.eq(x, y)
    # ---- events
    def state(self, **over):
        d = {**self.S, **over}
        return tuple(sorted((k, d[k]) for k in STATE_FIELDS))
    def match(self, ev, label, args):
        if ev.label != label: return False
        for a, e in zip(args, ev.args):
            if a is None: continue
            if isinstance(a, Any): continue
            if callable(a):
                if not a(e): return False
            elif a != e: return False
        return len(args) <= len(ev.args)
    def peek(self, label, *args):
        for ev in self.left:
            if self.match(ev, label, args): return ev
        return None
    def ev(self, label, *args, mut=(), opt=False):
        """Consume the event; `mut` lists the state fields it may change."""
        ev = self.peek(label, *args)
        if ev is None:
            if opt: return None
            cand = [e for e in self.left if e.label == label]
            if cand:
                for a, e in zip(args, cand[0].args):
                    if a is not None and not callable(a) and a != e:
                        if isinstance(a, tuple) and isinstance(e, tuple):
                            d = [f"{k}: expected `{x}`, found `{dict(e).get(k)}`" for k, x in a if dict(e).get(k) != x]
                            raise Bad(f"{label} is evaluated in a different state: " + '; '.join(d))
                        raise Bad(f"{label} is evaluated on `{fmt(e)}` where `{fmt(a)}` is required")
            raise Bad(f"required evaluation {label}({', '.join(fmt(a) for a in args)}) does not happen")
        self.left.remove(ev)
        if label in ORDERED:
            if ev.k < self.last: raise Bad(f"{label}({', '.join(fmt(a) for a in ev.args)}) happens out of order")
            self.last = ev.k
        for f in mut: self.S[f] = self.S[f].split("'")[0] + f"'{ev.k}"
        return f"{label}#{ev.k}"
    # ---- the common shapes
    def sat(self, what, label='Condition::satisfied_by'): return self.ev(label, what, self.state())
    def get(self, what): return self.ev('StringSource::get', what, self.state())
    def get_str(self, what, missing='StringSourceIsNone'): return self.try_some(self.get(what), missing)
    def get_opt(self, what):
        """Option<StringSource>-typed source: absent source and absent value are both None."""
        return self.try_(self.get(what))
    def mapper(self, what, **over): return self.ev('Mapper::apply', what, self.state(**over), mut=('url', 'scratchpad'))
    def par(self, *thunks):
        """Evaluations whose relative order is not specified: if one fails its error is the result and others may not happen."""
        out = []; missing = []; errs = []
        for t in thunks:
            try: out.append(t())
            except Ret as r: errs.append(r); out.append(None)
            except Bad as b: missing.append(b); out.append(None)
        if errs:
            if len(errs) > 1:   # both evaluated and failed: which one is reported is not specified
                for r in errs:
                    if self.agrees(r.v): raise r
            raise errs[0]
        if missing: raise missing[0]
        return out
    def nm(self, s): return self.I.nm(s)
    # ---- results
    def norm(self, v, d=8):
        I, st = self.I, self.st
        if d == 0: return '…'
        k = v[0]
        if k == 'tok':
            c = I.loc(st, v)
            if c is not None: return self.norm(c, d - 1)
            return self.norm_tok(v[1], d)
        if k == 'not':
            if self.norm_tok(v[1]) in ('true', 'false'): return 'false' if self.norm_tok(v[1]) == 'true' else 'true'
            f = self.fact(v[1])
            return ('!' + v[1]) if f is None else ('false' if f else 'true')
        if k == 'ref': return self.norm(I.read_path(st, v[1], v[2]), d)
        if k == 'adt' and v[1].split('::')[-1] in ('Result', 'Option', 'Cow'):
            vn = I.F.adts[v[1]]['variants'][v[2]]['n']
            if vn in ('Borrowed', 'Owned'): return self.norm(v[3][0], d - 1)
            return vn + ('(' + self.norm(v[3][0], d - 1) + ')' if v[3] else '')
        if k == 'tuple': return '(' + ','.join(self.norm(x, d - 1) for x in v[1]) + ')'
        return I.render(st, v)
    def norm_tok(self, n, d=8):
        f = self.fact(n)
        if f is True: return 'true'
        if f is False: return 'false'
        if f in ('Ok', 'Some', 'Err') and d: return f"{f}({self.norm(('tok', n + '.' + f + '.0'), d - 1)})"
        if f == 'None': return 'None'
        if n.startswith('is('):
            x, _, v = n[3:-1].rpartition(','); g = self.fact(x)
            if isinstance(g, str): return 'true' if g == v else 'false'
        return n
    def expect_norm(self, s):
        """Normalise an expected term: `Ok(x)`/`Some(x)` around tokens whose facts are known."""
        m = re.match(r'^(Ok|Some|Err)\((.*)\)$', s, re.S)
        if m and balanced(m.group(2)): return f"{m.group(1)}({self.expect_norm(m.group(2))})"
        if s in ('()', 'true', 'false', 'None') : return s
        return self.norm(('tok', s))
    def agrees(self, want):
        got = self.norm(self.rv)
        if isinstance(want, Any): return True
        if isinstance(want, Err):
            return got.startswith('Err(') and all(c in got for c in want.carries)
        if callable(want): return want(got)
        if isinstance(want, str) and '#' in want and self.fact(want) == 'Err': return got.startswith('Err(') and f"{want}.Err.0" in got
        return any(got == self.expect_norm(w) for w in (want if isinstance(want, (list, tuple)) else [want]))
    def finish(self, want):
        if not self.agrees(want):
            raise Bad(f"result is `{self.norm(self.rv)[:300]}`, required: `{want if not isinstance(want, str) else self.expect_norm(want)}`")
        if self.left: raise Bad(f"additional evaluation {str(self.left[0])[:300]}")
        iserr = isinstance(want, Err) or self.norm(self.rv).startswith('Err(')
        if self.st_roots and (not iserr or self.check_err_state):
            for f, t in self.st_roots.items():
                got = self.I.render(self.st, tok(t))
                if not isinstance(self.S[f], Any) and got != self.S[f]: raise Bad(f"final {f} is `{got[:300]}`, required `{self.S[f]}`")
    st_roots = {}

def balanced(s):
    d = 0
    for ch in s:
        if ch in '([{': d += 1
        elif ch in ')]}':
            d -= 1
            if d < 0: return False
    return d == 0
def fmt(a):
    if isinstance(a, tuple): return 'state'
    if a is None or callable(a): return '_'
    return str(a)[:200]

def replay(I, st, rv, spec, setup=None, **kw):
    """Run `spec(ctx)` against one path; every way of resolving facts the path leaves open must agree. Returns None or a message."""
    dec = []
    n = 0
    while True:
        c = Ctx(I, st, rv, dec, **kw); c.di = 0
        if setup: setup(c)
        try:
            try: want = spec(c)
            except Ret as r: want = r.v
            c.finish(want)
        except Bad as b:
            extra = {k: v for k, v in c.local.items()}
            return f"{b}" + (f" [when {extra}]" if extra else '')
        n += 1
        if n > 2000: return "specification replay did not terminate"
        # next decision vector
        dec = dec[:c.di]
        while dec and dec[-1][0] + 1 >= dec[-1][1]: dec.pop()
        if not dec: return None
        dec[-1][0] += 1

def describe(st):
    fs = [f"{k}={v}" for k, v in st.facts.items() if k != 'self' and not k.startswith(('iv:', '¬'))]
    return 'path [' + '; '.join(x[:140] for x in fs[:14]) + '] events [' + ', '.join(str(e).split('(')[0] + '(' + fmt(e.args[0] if e.args else '') + ')' for e in st.events[:10]) + ']'

def text(*ps):
    """The canonical rendering of a concatenation."""
    from domain import split_args
    out = []
    for p in [y for x in ps for y in (split_args(x[4:-1]) if x.startswith('cat(') else [x])]:
        if p.startswith("'") and out and out[-1].startswith("'"): out[-1] = out[-1][:-1] + p[1:]
        elif p != "''": out.append(p)
    return "''" if not out else out[0] if len(out) == 1 else 'cat(' + ','.join(out) + ')'
def joined(items, sep):
    """The canonical rendering of texts joined by a separator."""
    return text(*[p for i, x in enumerate(items) for p in ([sep] if i else []) + [x]])
