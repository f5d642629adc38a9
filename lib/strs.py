"""Text-walking functions: their path summaries (extracted from MIR, never run) compared with a reference on representatives of every character class a path distinguishes."""
import re, unicodedata
from functools import lru_cache
from interp import tok, Budget
NAME = re.compile(r"[A-Za-z_λ!][\w:]*")
class Unknown(Exception): pass
@lru_cache(maxsize=200000)
def parse(s):
    p = [0]
    def lit():
        i = p[0]; j = i + 1
        while s[j] != s[i]: j += 2 if s[j] == '\\' else 1
        p[0] = j + 1
        try: return ('lit', eval(s[i:j + 1], {'__builtins__': {}}))
        except Exception: raise Unknown(s[i:j + 1])
    def args(close):
        out = []
        while s[p[0]] != close:
            out.append(expr())
            if s[p[0]] == ',': p[0] += 1
        p[0] += 1
        return tuple(out)
    def expr():
        if p[0] >= len(s): raise Unknown(s[:80])
        c = s[p[0]]
        m = re.compile(r'-?\d+').match(s, p[0])
        if m: p[0] = m.end(); e = ('num', int(m.group()))
        elif c in '\'"': e = lit()
        elif c == '(': p[0] += 1; e = ('tup', args(')'))
        else:
            m = NAME.match(s, p[0])
            if not m: raise Unknown(s[p[0]:p[0] + 40])
            n = m.group(); p[0] = m.end()
            if p[0] < len(s) and s[p[0]] == '(': p[0] += 1; e = ('call', n, args(')'))
            elif p[0] < len(s) and s[p[0]] == '{':
                p[0] += 1; fs = []
                while s[p[0]] != '}':
                    m = re.compile(r'(\w+):?=').match(s, p[0])
                    if not m: raise Unknown(s[p[0]:p[0] + 40])
                    p[0] = m.end(); fs.append((m.group(1), expr()))
                    if s[p[0]] == ',': p[0] += 1
                p[0] += 1; e = ('rec', n, tuple(fs))
            elif n == 'vec' and p[0] < len(s) and s[p[0]] == '[': p[0] += 1; e = ('tup', args(']'))
            else: e = ('name', n)
        while p[0] < len(s) and s[p[0]] in '.[':
            if s[p[0]] == '.':
                m = re.compile(r'\.(\w+)').match(s, p[0])
                if not m: raise Unknown(s[p[0]:p[0] + 40])
                p[0] = m.end(); e = ('dot', e, m.group(1))
            else:
                m = re.compile(r'\[(\d+)\]').match(s, p[0])
                if not m: raise Unknown(s[p[0]:p[0] + 40])
                p[0] = m.end(); e = ('at', e, int(m.group(1)))
        return e
    e = expr()
    if p[0] != len(s): raise Unknown(s[p[0]:p[0] + 60])
    return e
NONE = ('None',)
def some(x): return NONE if x is None else ('Some', x)
def ch(x): return ord(x) if isinstance(x, str) and len(x) == 1 else x
def st(x): return chr(x) if isinstance(x, int) and not isinstance(x, bool) else x
def b(s): return s.encode('utf-8', 'surrogatepass')
def sub(s, lo, hi):
    """s[lo..hi] by bytes, or Unknown when it would panic."""
    B = b(s); lo = 0 if lo is None else lo; hi = len(B) if hi is None else hi
    if not 0 <= lo <= hi <= len(B): raise Panic(f"slice {lo}..{hi} of {s!r}")
    try: B[:lo].decode(); B[lo:hi].decode(); return B[lo:hi].decode()
    except UnicodeDecodeError: raise Panic(f"slice {lo}..{hi} of {s!r}")
class Panic(Exception): pass
def digit(c, r):
    try: v = int(chr(ch(c)), 36)
    except ValueError: return NONE
    return some(v) if v < r and chr(ch(c)).isascii() else NONE
def from_u32(n): return some(n) if 0 <= n <= 0x10FFFF and not 0xD800 <= n <= 0xDFFF else NONE
def find(s, p):
    i = s.find(st(p)); return NONE if i < 0 else some(len(b(s[:i])))
def rfind(s, p):
    i = s.rfind(st(p)); return NONE if i < 0 else some(len(b(s[:i])))
def once(s, p):
    a, x, c = s.partition(st(p)); return some((a, c)) if x else NONE
def ronce(s, p):
    a, x, c = s.rpartition(st(p)); return some((a, c)) if x else NONE
def u32(n): return some(n) if 0 <= n < 2**32 else NONE
def pre(s, p): return some(s[len(st(p)):]) if s.startswith(st(p)) else NONE
def suf(s, p): return some(s[:len(s) - len(st(p))]) if s.endswith(st(p)) else NONE
WS = set(map(ord, '\t\n\x0b\x0c\r \x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000')) | set(range(0x2000, 0x200b))
FUN = {'to_digit': digit, 'is_digit': lambda c, r: digit(c, r) != NONE, 'from_u32': from_u32, 'checked_mul': lambda a, c: u32(a * c), 'checked_add': lambda a, c: u32(a + c), 'checked_sub': lambda a, c: u32(a - c),
       'is_control': lambda c: unicodedata.category(chr(ch(c))) == 'Cc', 'is_whitespace': lambda c: ch(c) in WS, 'is_ascii_digit': lambda c: 48 <= ch(c) <= 57, 'is_ascii_hexdigit': lambda c: digit(c, 16) != NONE,
       'is_ascii_alphabetic': lambda c: chr(ch(c)).isascii() and chr(ch(c)).isalpha(), 'is_ascii_whitespace': lambda c: ch(c) in (32, 9, 10, 12, 13), 'is_ascii': lambda c: ch(c) < 128,
       'Add': lambda a, c: a + c, 'Sub': lambda a, c: a - c, 'Mul': lambda a, c: a * c, 'Shl': lambda a, c: a << c, 'BitOr': lambda a, c: a | c, 'Rem': lambda a, c: a % c, 'Div': lambda a, c: a // c,
       'lt': lambda a, c: ch(a) < ch(c), 'le': lambda a, c: ch(a) <= ch(c), 'eq': lambda a, c: st(a) == st(c) if isinstance(a, str) or isinstance(c, str) else a == c,
       'chars': lambda s: [ord(x) for x in s], 'char_indices': lambda s: [(len(b(s[:i])), ord(x)) for i, x in enumerate(s)], 'bytes': lambda s: list(b(s)), 'split': lambda s, p: s.split(st(p)), 'len': lambda s: len(b(s)) if isinstance(s, str) else len(s),
       'split_once': once, 'rsplit_once': ronce, 'find': find, 'rfind': rfind, 'strip_prefix': pre, 'strip_suffix': suf, 'contains': lambda s, p: st(p) in s, 'starts_with': lambda s, p: s.startswith(st(p)), 'ends_with': lambda s, p: s.endswith(st(p)),
       'starts': lambda s, p: s.startswith(st(p)), 'is_empty': lambda s: not s, 'cat': lambda *a: ''.join(st(x) for x in a), 'enumerate': lambda xs: list(enumerate(xs)), 'len_utf8': lambda c: len(b(chr(ch(c)))),
       'is': lambda x, v: x[0] == v if isinstance(x, tuple) and x and isinstance(x[0], str) else False, 'has': lambda xs, k: k < len(xs), 'is_char_boundary': lambda s, i: i == 0 or i == len(b(s)) or 0 < i < len(b(s)) and (b(s)[i] & 0xC0) != 0x80,
       'u32': lambda c: ch(c), 'BitAnd': lambda a, c: a & c, 'BitXor': lambda a, c: a ^ c, 'Shr': lambda a, c: a >> c, 'wrapping_mul': lambda a, c: (a * c) % 2**32, 'saturating_add': lambda a, c: min(ch(a) + ch(c), 2**32 - 1), 'saturating_mul': lambda a, c: min(a * c, 2**32 - 1), 'pow': lambda a, c: a ** c, 'from': ch, 'into': ch, 'try_from': lambda x: ('Ok', ch(x)), 'wrapping_sub': lambda a, c: (ch(a) - ch(c)) % 2**32, 'wrapping_add': lambda a, c: (ch(a) + ch(c)) % 2**32, 'saturating_sub': lambda a, c: max(0, a - c), 'is_ascii_uppercase': lambda c: 65 <= ch(c) <= 90, 'is_ascii_lowercase': lambda c: 97 <= ch(c) <= 122, 'is_ascii_alphanumeric': lambda c: chr(ch(c)).isascii() and chr(ch(c)).isalnum(), 'trim_start_matches': lambda s, p: s.lstrip(st(p)), 'repeat': lambda s, n: s * n, 'to_ascii_lowercase': lambda s: ''.join(c.lower() if c.isascii() else c for c in st(s)), 'max': max, 'min': min}
for _n in (8, 16, 32): FUN[f'as_u{_n}'] = lambda x, n=_n: ch(x) % 2**n
class Eval:
    def __init__(self, env, fun=None): self.env = env; self.fun = {**FUN, **(fun or {})}; self.memo = {}
    def e(self, x):
        try: return self.memo[x]
        except KeyError: pass
        r = self.memo[x] = self._e(x)
        return r
    def _e(self, x):
        k = x[0]
        if k in ('num', 'lit'): return x[1]
        if k == 'name':
            n = x[1]
            if n in self.env: return self.env[n]
            if n == 'None': return NONE
            if n in ('True', 'true'): return True
            if n in ('False', 'false'): return False
            if '::' in n and n.split('::')[-1][0].isupper(): return (n.split('::')[-1],)
            raise Unknown(n)
        if k == 'tup': return tuple(self.e(y) for y in x[1])
        if k == 'rec':
            if x[1] in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull'): d = {a: self.e(y) for a, y in x[2]}; return ('range', d.get('start'), d.get('end'))
            return (x[1].split('::')[-1],)
        if k == 'dot':
            v = self.e(x[1]); f = x[2]
            if f in ('Some', 'Ok', 'Err'):
                if v[0] != f: raise Unknown('not ' + f)
                return v
            if f == '0' and isinstance(v, tuple) and v and v[0] in ('Some', 'Ok', 'Err') and x[1][0] == 'dot' and x[1][2] == v[0]: return v[1]
            if f.isdigit(): return v[int(f)]
            raise Unknown(f)
        if k == 'at':
            v = self.e(x[1])
            if x[2] >= len(v): raise Unknown('no such element')
            return v[x[2]]
        n = x[1].split('::')[-1]
        if x[1] in ('Ok', 'Some', 'Err'):
            try: return (x[1], self.e(x[2][0]))
            except Unknown:
                if x[1] == 'Err': return ('Err', None)
                raise
        if n == 'is' and len(x[2]) == 2: return self.e(x[2][0])[0] == x[2][1][1]
        if x[1] in self.env: return self.env[x[1]](*[self.e(y) for y in x[2]])
        if n in ('index', 'get') and len(x[2]) == 2:
            s, r = self.e(x[2][0]), self.e(x[2][1])
            if isinstance(r, tuple) and r and r[0] == 'range':
                if n == 'index': return sub(s, r[1], r[2])
                try: return some(sub(s, r[1], r[2]))
                except Panic: return NONE
            if n == 'index': return s[r]
            return some(s[r]) if 0 <= r < len(s) else NONE
        if n in self.fun: return self.fun[n](*[self.e(y) for y in x[2]])
        if '::' in x[1] and n[0].isupper(): return (n,)
        raise Unknown(x[1])
    def holds(self, k, v):
        """Does this fact hold here?  None: cannot tell."""
        if k.startswith('iv:'): r = ch(self.e(parse(k[3:]))); return (v[0] is None or v[0] <= r) and (v[1] is None or r <= v[1])
        if k.startswith('¬'):
            r = self.e(parse(k[1:])); return (ch(r) not in v) if not isinstance(r, tuple) else r[0] not in v
        r = self.e(parse(k))
        if isinstance(v, bool): return r == v
        if isinstance(v, int): return ch(r) == v
        if isinstance(v, str): return (r[0] == v) if isinstance(r, tuple) else st(r) == v
        raise Unknown(k)
POOL = sorted(set(map(ord, '\0\b\t\n\x0b\x0c\r\x1f !"#$%&\'()-./0178 9:;<=>?@AFGXZ[\\]_`abfgnrtuvxz{|}~\x7f')) | {0x80, 0x85, 0xA0, 0xE9, 0x2028, 0xD7FF, 0xE000, 0x1F600, 0x10FFFF})
def classes(F, facts, base, pool):
    """The candidates left by the facts that speak of a single character of `base`."""
    out = {}
    for k, v in facts.items():
        m = re.fullmatch(r'(¬|iv:)?(' + re.escape(base) + r')\[(\d+)\](\.1)?', k)
        if m:
            i = int(m.group(3)); p = out.setdefault(i, [])
            p.append((lambda c, v=v: c not in v) if m.group(1) == '¬' else (lambda c, v=v: (v[0] is None or v[0] <= c) and (v[1] is None or c <= v[1])) if m.group(1) else (lambda c, v=v: c == v))
            continue
        m = re.fullmatch(r'(lt|le)\((.*)\)', k)
        if m:
            e = parse(k)
            for a, sgn in ((e[2][0], 0), (e[2][1], 1)):
                q = a[1] if a[0] == 'dot' and a[2] == '1' else a
                o = e[2][1 - sgn]
                if q[0] == 'at' and o[0] == 'num':
                    op = (lambda x, y: x < y) if m.group(1) == 'lt' else (lambda x, y: x <= y)
                    out.setdefault(q[2], []).append((lambda c, o=o[1], v=v, op=op: op(c, o) == v) if sgn == 0 else (lambda c, o=o[1], v=v, op=op: op(o, c) == v))
    return {i: [c for c in pool if all(f(c) for f in fs)] for i, fs in out.items()}
def length(facts, base):
    """(known length or None, least length)"""
    n = 0; done = None
    for k, v in facts.items():
        m = re.fullmatch(r'has\(' + re.escape(base) + r',(\d+)\)', k)
        if m and v is True: n = max(n, int(m.group(1)) + 1)
        if m and v is False: done = int(m.group(1))
    return done, n
def samples(F, facts, base, tails, pool=POOL):
    done, n = length(facts, base)
    more = {x for k, v in facts.items() if base in k for x in ((v,) if isinstance(v, int) else v if isinstance(v, (frozenset, tuple)) else ()) if isinstance(x, int) and not isinstance(x, bool)}
    pool = sorted(set(pool) | {x + d for x in more for d in (-1, 0, 1) if 0 <= x + d <= 0x10FFFF and not 0xD800 <= x + d <= 0xDFFF})
    cl = classes(F, facts, base, pool)
    pos = [cl.get(i, pool) for i in range(n if done is None else done)]
    if any(not p for p in pos): return
    first = [p[len(p) // 2] for p in pos]; seen = set()
    for i in [-1] + list(range(len(pos))):
        for c in ([None] if i < 0 else pos[i]):
            w = list(first)
            if i >= 0: w[i] = c
            for t in (('',) if done is not None else tails):
                s = ''.join(map(chr, w)) + t
                if s not in seen: seen.add(s); yield s
def compare(rep, F, I, b, res, ref, base, key, arg='s', fun=None, env=None, tails=('', 'a', '"', ';'), extra=(), where=''):
    """Each path, on every representative of its class, must return what the reference does."""
    und = 0; n = 0; bad = []
    for s, rv in res:
        if s.cut: continue
        facts = {k: v for k, v in s.facts.items()}
        try: r = parse(I.render(s, rv, 40))
        except (Unknown, IndexError): und += 1; continue
        hit = False
        ks = None
        for w in list(samples(F, facts, base, tails)) + list(extra):
            for v in (env(w) if env else [{}]):
                E = Eval({arg: w, **v}, fun)
                try:
                    ok = True
                    for k, val in facts.items():
                        if not E.holds(k, val): ok = False; break
                    if not ok: continue
                    got = E.e(r)
                except Panic as p: bad.append((len(w), f"it panics on {w!r}: {p}")); hit = True; continue
                except (Unknown, IndexError, TypeError, KeyError, ValueError, AttributeError) as e: ks = str(e)[:60]; continue
                hit = True; n += 1
                want = ref(w, v)
                if want is None: continue
                g = ('Err',) if got[0] == 'Err' else got
                if isinstance(want, tuple) and want[0] == 'Err': want = ('Err',)
                if not same(g, want): bad.append((len(w), f"for {w!r}" + (f" ({', '.join(f'{a}={x!r}' for a, x in v.items() if not callable(x))})" if v else '') + f" it returns {show(g)} instead of {show(want)}", str(facts)))
        if not hit and ks is not None: und += 1; rep.und = getattr(rep, 'und', []) + [ks]
    rep.count('obligations'); rep.count('paths', len(res)); rep.count('representatives', n); rep.count('steps', I.steps)
    if und: rep.count('undecided paths', und); rep.note(f"{key}: {und} of {len(res)} paths could not be compared ({getattr(rep, 'und', ['?'])[-1]})")
    global BAD; BAD = bad
    if bad:
        bad.sort(); rep.bad(key, f"{key}: {bad[0][1]} ({len(bad)} representatives disagree)", where or b['path'])
    else: rep.sample(f"{key}: {n} representatives on {len(res)} paths agree with the reference")
    return n
def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or st(a) == st(b)
def show(x):
    if x[0] == 'Err': return 'an error'
    if x[0] == 'Ok': return f"Ok({x[1]!r})"
    return repr(x)

# ------------------------------------------------------------------ many scenarios, side by side
import os, sys, multiprocessing
from runner import Report, engine
import panics, time
JOBS = []
def job(i):
    F, suffix, n, prefix, ref, base, key, opaque, kw, budget = JOBS[i]
    t0 = time.time(); rep = Report('text'); sys.setrecursionlimit(20000)
    bs = [x for x in F.real if x['path'].endswith('::' + suffix)]
    for b in bs[:1]:
        I = engine(F, look=[suffix, suffix.split('::')[-1]], opaque=opaque, maxlen=n, budget=budget); I.recurse = 4; I.partial = panics.partial
        facts = {f"has({base},{k})": True for k in range(len(prefix))}
        facts.update({f"{base}[{k}]" + ('.1' if 'indices' in base else ''): ord(c) for k, c in enumerate(prefix)})
        try: res = I.run(b, [tok(a) for a in ['s', 'name'][:b['argc']]], facts=facts)
        except (Budget, RecursionError) as e: rep.note(f"{key}: more paths than the bound, not compared ({e})"); rep.count('undecided scenarios'); break
        compare(rep, F, I, b, res, ref, base, key, **kw)
        for what, xs, fs, stack, sp in I.panics:
            if panics.relevant(what) and not panics.discharged(what, xs, fs): rep.bad(f"{key}:panic:{what}", f"{key}: {panics.readable(what, xs)} is not excluded", sp)
    if os.environ.get('T'): print(key, round(time.time() - t0, 1), rep.counts)
    return rep
def scenarios(rep, jobs):
    """jobs: (F, suffix, maxlen, prefix, ref, base, key, opaque, kwargs of compare, budget); every job is one bounded family of texts."""
    JOBS[:] = jobs
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(8, os.cpu_count() or 1)) as pool: out = pool.map(job, range(len(jobs)), chunksize=1)
    for r in out:
        for k, v in r.counts.items(): rep.count(k, v)
        for s in r.samples[:1]: rep.sample(s)
        for n in r.notes: rep.note(n)
        for v in r.violations: rep.bad(v['key'], v['what'], v['where'])
