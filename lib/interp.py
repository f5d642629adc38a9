"""Path-sensitive abstract interpretation of MIR.

Abstract domain: constructors (enum variants, tuples, records with known fields), references with exact
targets, small constants, and opaque tokens that carry provenance (`self.If.condition`, `Url::query(ts.url)`).
Nothing is evaluated on concrete inputs and no constraint solver is involved: an undecided branch is followed
both ways, recording the assumption (a *fact* about a token).  Local helpers, closures and the generic
core/alloc/std glue (`?`, `map_err`, `and_then`, `Option::map`, iterator adapters...) are inlined, so the result does
not depend on whether code is written with a loop, a combinator or an extracted function.
"""
import hashlib
from facts import Missing

UNIT = ('tuple', ())
TOP = ('tok', '?')
def const(v): return ('const', v)
def tok(n): return ('tok', n)
def frozen(v): return v if v[0] != 'tok' or len(v) > 2 else ('tok', v[1], 'v')   # a copied value, no longer an alias of the location it was read from
def short(path):
    import re
    p = path
    m = re.match(r'^<(.+) as (.+)>::(\w+)$', p)
    if m:
        a = m.group(1).split('<')[0].split('::')[-1].strip('& ').replace('mut ', ''); return a + '::' + m.group(3)
    p = re.sub(r'::<[^<>]*(<[^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>)?[^<>]*>)?[^<>]*>', '', p)
    p = re.sub(r'<impl ([^<>]*)>', lambda m: m.group(1).split('::')[-1], p)
    return '::'.join(p.split('::')[-2:])

import re
INTREL = re.compile(r'^(lt|eq)\(([^,]+),([^,]+)\)$')
CMP = ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge')
def linear(n):
    """(x, c) of a term x + c with a constant c."""
    m = re.match(r'^Sub\((.*),(\d+)\)$', n, re.S)
    if m and _bal(m.group(1)): x, o = linear(m.group(1)); return x, o - int(m.group(2))
    m = re.match(r'^Add\((\d+),(.*)\)$', n, re.S)
    if m and _bal(m.group(2)): x, o = linear(m.group(2)); return x, o + int(m.group(1))
    return n, 0
def _bal(s):
    d = 0
    for ch in s:
        if ch in '([{': d += 1
        elif ch in ')]}': d -= 1
        elif ch == ',' and d == 0: return False
        if d < 0: return False
    return d == 0
def isint(x): return re.match(r'^-?\d+$', x) is not None
class Budget(Exception): pass

class Event:
    __slots__ = ('label', 'args', 'sp', 'c', 'k')
    def __init__(self, label, args, sp, c, k): self.label = label; self.args = args; self.sp = sp; self.c = c; self.k = k
    def __repr__(self):
        def a(x):
            if not isinstance(x, tuple): return str(x)
            return '{' + ','.join(f"{k}={v}" for k, v in x) + '}'
        return f"{self.label}({', '.join(a(x) for x in self.args)})" 

class State:
    __slots__ = ('mem', 'facts', 'events', 'visits', 'cut', 'ver', 'asserts')
    def __init__(self):
        self.mem = {}; self.facts = {}; self.events = (); self.visits = {}; self.cut = None; self.ver = 0; self.asserts = ()
    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.facts = dict(self.facts); s.events = self.events; s.visits = dict(self.visits); s.cut = self.cut; s.ver = self.ver; s.asserts = self.asserts
        return s

# Functions that return (a view of, or a copy of) their first argument.
IDENT = {
    'core::clone::Clone::clone', 'core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut', 'core::borrow::Borrow::borrow',
    'core::borrow::BorrowMut::borrow_mut', 'alloc::borrow::ToOwned::to_owned', 'alloc::string::ToString::to_string', 'alloc::boxed::Box::<T>::new',
    'alloc::string::String::as_str', 'alloc::string::String::as_bytes', 'core::str::<impl str>::as_bytes', 'alloc::string::String::into_bytes', 'alloc::string::String::into_boxed_str', 'core::str::<impl str>::into_string', 'alloc::string::String::as_mut_str', 'alloc::vec::Vec::<T, A>::as_slice', 'alloc::borrow::Cow::<\'_, B>::into_owned', 'alloc::borrow::Cow::<\'_, B>::to_mut',
    'alloc::boxed::Box::<T, A>::as_ref', 'core::iter::traits::iterator::Iterator::by_ref', 'core::str::<impl str>::to_owned', 'core::hint::must_use', 'alloc::sync::Arc::<T>::new', 'core::str::<impl str>::as_ref',
    'core::option::Option::<&T>::cloned', 'core::option::Option::<&T>::copied', 'core::option::Option::<T>::as_ref', 'core::option::Option::<T>::as_deref', 'core::option::Option::<T>::as_mut', 'core::option::Option::<T>::as_deref_mut',
    'core::option::Option::<&mut T>::cloned', 'core::option::Option::<&mut T>::copied', 'core::result::Result::<T, E>::as_ref', 'core::result::Result::<T, E>::as_mut', 'core::result::Result::<T, E>::as_deref', 'alloc::string::String::from_utf8_lossy', 'alloc::string::String::into_boxed_str', 'core::iter::traits::iterator::Iterator::copied', 'core::iter::traits::iterator::Iterator::cloned', 'core::str::<impl str>::to_string', 'alloc::str::<impl str>::to_owned', 'alloc::string::String::as_bytes_str',
    'alloc::slice::<impl [T]>::to_vec', 'alloc::str::<impl str>::to_string', 'core::iter::traits::collect::IntoIterator::into_iter#iter', 'alloc::str::<impl str>::into_string', 'alloc::borrow::Cow::<\'_, B>::deref',
}
IDENT_INTO_TARGETS = ('alloc::string::String', 'alloc::borrow::Cow', 'alloc::boxed::Box', 'alloc::sync::Arc', 'alloc::vec::Vec')
PTRISH = ('alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull')

def width(t):
    m = re.fullmatch(r'[iu](8|16|32|64|128|size)', t)
    return 21 if t == 'char' else 1 if t == 'bool' else 0 if not m else 64 if m.group(1) == 'size' else int(m.group(1))
RAW = {'percent_encoding::ascii_set::AsciiSet', 'percent_encoding::AsciiSet'}      # constants of these types are known by their bytes
UNSIGNED = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize'}
class Interp:
    state_types = ('TaskState', 'TaskStateView')
    def __init__(self, F, events=None, opaque=None, maxlen=3, loopcap=6, budget=60000, depth=24, models=None, record_asserts=False, inline_all_local=True, pure_ok=None, maxev=9):
        self.F = F; self.events = events or (lambda c: None); self.opaque = opaque or (lambda c: False)
        self.maxlen = maxlen; self.loopcap = loopcap; self.budget = budget; self.maxdepth = depth
        self.unfold = set()   # events that are followed instead when their receiver is a value written in the code
        self.steps = 0; self.fid = 0; self.models = models or {}
        self.inlined = set(); self.opaques = set(); self.cuts = 0; self.record_asserts = record_asserts
        self.names = {}; self.bounded = 0; self.maxev = maxev
        self.widen = False; self._loops = {}; self.recurse = 1
        self.panics = []; self.partial = None   # places where a path ends in a panic; calls that may panic depending on their arguments

    def panic(self, st, fr, what, args, sp=None):
        self.panics.append((what, [self.render(st, a) for a in args], dict(st.facts), fr['stack'], sp))

    # ---------------------------------------------------------------- names
    def nm(self, s):
        if len(s) > 3000:
            h = 'h' + hashlib.md5(s.encode()).hexdigest()[:10]; self.names[h] = s; return s[:120] + '…' + h
        return s

    # ---------------------------------------------------------------- types
    def proj_ty(self, ty, step):
        t = self.F.ty(ty)
        if step == '*':
            if t.get('k') in ('ref', 'ptr'): return t['to']
            if t.get('k') == 'adt' and t['adt'] in PTRISH and t['args']: return t['args'][0]
            return ty
        return ty

    # ---------------------------------------------------------------- memory
    def root_default(self, root):
        if root[0] == 'T': return tok(root[1])
        if root[0] == 'V': return ('tok', root[1], 'v')
        return ('undef',)
    def loc(self, st, v):
        """Current content of the location a token names, if it was overwritten."""
        if v[0] != 'tok' or len(v) > 2: return None
        c = st.mem.get(('T', v[1]))
        return None if c is None or c == v else c
    def get_root(self, st, root):
        v = st.mem.get(root)
        return self.root_default(root) if v is None else v
    def field_name(self, ty, variant, idx):
        t = self.F.ty(ty)
        if t.get('k') == 'adt':
            a = self.F.adts.get(t['adt'])
            if a:
                vi = variant if variant is not None else 0
                if vi < len(a['variants']) and idx < len(a['variants'][vi]['f']):
                    fnm = a['variants'][vi]['f'][idx]['n']
                    return (a['variants'][vi]['n'] + '.' if a['kind'] == 'enum' else '') + fnm
        return str(idx)
    def proj(self, st, v, step):
        """Project one path step ('f', idx, ty, variant) out of an abstract value."""
        _, idx, ty, variant = step
        k = v[0]
        if k == 'adt' or k == 'tuple' or k == 'clo' or k == 'array':
            fs = v[3] if k == 'adt' else v[2] if k == 'clo' else v[1]
            if k == 'adt' and variant is not None and v[2] != variant: return TOP
            return fs[idx] if idx < len(fs) else TOP
        if k == 'tok':
            if self.F.ty(ty).get('adt') == 'alloc::borrow::Cow': return v       # borrowed and owned text are the same text
            return ('tok', self.nm(v[1] + '.' + self.field_name(ty, variant, idx))) + v[2:]
        if k == 'rec':
            key = self.field_name(ty, variant, idx)
            for a, b in v[2]:
                if a == key: return b
            return tok(self.nm(v[1] + '.' + key))
        if k == 'ref': return v     # pointer wrappers
        return TOP
    def read_path(self, st, root, path):
        v = self.get_root(st, root)
        for s in path:
            if s[0] == 'f': v = self.proj(st, v, s)
            elif s[0] == 'i':
                if v[0] in ('array', 'vec') and isinstance(s[1], int) and s[1] < len(v[1]): v = v[1][s[1]]
                elif v[0] in ('tok', 'rec'): v = tok(self.nm(f"{v[1]}[{s[1]}]"))
                else: v = TOP
        return v
    def write_path(self, st, root, path, val):
        def go(v, path):
            if not path: return val
            s = path[0]
            if s[0] == 'f':
                _, idx, ty, variant = s
                if v[0] in ('adt', 'tuple', 'clo'):
                    fs = v[3] if v[0] == 'adt' else v[2] if v[0] == 'clo' else v[1]
                    fs = list(fs)
                    while len(fs) <= idx: fs.append(('undef',))
                    fs[idx] = go(fs[idx], path[1:])
                    return ('adt', v[1], v[2], tuple(fs)) if v[0] == 'adt' else ('clo', v[1], tuple(fs)) if v[0] == 'clo' else ('tuple', tuple(fs))
                if v[0] == 'undef':
                    fs = [('undef',)] * (idx + 1); fs[idx] = go(('undef',), path[1:]); 
                    t = self.F.ty(ty)
                    if t.get('k') == 'adt': return ('adt', t['adt'], variant or 0, tuple(fs))
                    return ('tuple', tuple(fs))
                if v[0] in ('tok', 'rec'):
                    base = v[1]; key = self.field_name(ty, variant, idx)
                    ov = dict(v[2]) if v[0] == 'rec' else {}
                    cur = ov.get(key, tok(self.nm(base + '.' + key)))
                    nv = go(cur, path[1:])
                    if nv[:2] == tok(self.nm(base + '.' + key)): ov.pop(key, None)
                    else: ov[key] = nv
                    return ('rec', base, tuple(sorted(ov.items()))) if ov else tok(base)
                return TOP
            if v[0] in ('tok', 'rec'): return tok(self.nm(f"{v[1]}[{s[1]}:={self.render(st, val)}]"))
            if v[0] in ('array', 'vec') and isinstance(s[1], int) and s[1] < len(v[1]):
                fs = list(v[1]); fs[s[1]] = go(fs[s[1]], path[1:]); return (v[0], tuple(fs))
            return TOP
        st.mem[root] = go(self.get_root(st, root), tuple(path))
    def place(self, st, fr, pl):
        """MIR place -> (root, path, type)."""
        root = (fr['id'], pl[0]); path = (); ty = fr['b']['locals'][pl[0]]; variant = None
        for e in pl[1:]:
            if e == '*':
                v = self.read_path(st, root, path)
                t = self.F.ty(ty)
                if v[0] == 'ref': root, path = v[1], v[2]
                elif v[0] == 'tok': root, path = ('T' if len(v) == 2 else 'V', v[1]), ()
                # any other value: a transparent box around it - stay in place
                ty = self.proj_ty(ty, '*'); variant = None
            elif e == '?': return root, path, ty
            elif e[0] == 'v': variant = e[1]
            elif e[0] == 'f':
                t = self.F.ty(ty)
                if t.get('k') == 'adt' and t['adt'] in PTRISH: ty = e[2] if t['adt'] != 'x' else ty; variant = None; continue
                path = path + (('f', e[1], ty, variant),); ty = e[2]; variant = None
            elif e[0] == 'i':
                iv = self.read_path(st, (fr['id'], e[1]), ())
                path = path + (('i', iv[1] if iv[0] in ('const', 'tok') else '?'),); ty = self.F.ty(ty).get('to', ty)
            elif e[0] == 'ci': path = path + (('i', e[1] if not e[2] else f"-{e[1]}"),); ty = self.F.ty(ty).get('to', ty)
            elif e[0] == 'sub':
                v = self.read_path(st, root, path)
                nm = self.render(st, v)
                r = ('T', self.nm(f"{nm}[{e[1]}..{'-' if e[3] else ''}{e[2]}]")); root, path = r, ()
        return root, path, ty
    def read(self, st, fr, pl):
        r, p, _ = self.place(st, fr, pl)
        return self.read_path(st, r, p)
    def deref(self, st, v, n=4):
        """Follow references/pointer tokens to the pointed-to value."""
        while n and v[0] == 'ref':
            v = self.read_path(st, v[1], v[2]); n -= 1
        c = self.loc(st, v)
        if c is not None and n: return self.deref(st, c, n - 1)
        return v
    def target(self, v):
        if v[0] == 'ref': return v[1], v[2]
        if v[0] == 'tok': return ('T' if len(v) == 2 else 'V', v[1]), ()
        return None

    # ---------------------------------------------------------------- rendering / normalising
    def render(self, st, v, d=7):
        if d == 0: return '…'
        k = v[0]
        if k == 'tok':
            c = self.loc(st, v)
            if c is not None: return self.render(st, c, d - 1)
            return v[1]
        if k == 'const': return repr(v[1]) if not isinstance(v[1], bool) else ('true' if v[1] else 'false')
        if k == 'ref': return self.render(st, self.read_path(st, v[1], v[2]), d)
        if k == 'adt':
            a = self.F.adts.get(v[1]); nm = v[1].split('::')[-1]; vn = nm
            fn = None
            if a:
                if a['kind'] == 'enum': vn = a['variants'][v[2]]['n'] if nm in ('Option', 'Result', 'Cow', 'ControlFlow', 'Ordering', 'Bound') else nm + '::' + a['variants'][v[2]]['n']
                fn = [f['n'] for f in a['variants'][v[2]]['f']]
            if vn in ('Borrowed', 'Owned'): return self.render(st, v[3][0], d - 1)
            if not v[3]: return vn
            fs = [self.render(st, x, d - 1) for x in v[3]]
            # eta: Variant(x.Variant.f0, ...) of an assumed variant is x itself
            if fn and all(not n.isdigit() for n in fn): return vn + '{' + ','.join(f"{n}={x}" for n, x in sorted(zip(fn, fs))) + '}'
            return vn + '(' + ','.join(fs) + ')'
        if k == 'tuple': return '(' + ','.join(self.render(st, x, d - 1) for x in v[1]) + ')'
        if k == 'array': return '[' + ','.join(self.render(st, x, d - 1) for x in v[1]) + ']'
        if k == 'cat': return 'cat(' + ','.join(repr(x) if isinstance(x, str) else self.render(st, x, d - 1) for x in v[1]) + ')'
        if k == 'vec': return 'vec[' + ','.join(self.render(st, x, d - 1) for x in v[1]) + ']'
        if k == 'rec': return v[1] + '{' + ','.join(f"{a}:={self.render(st, b, d - 1)}" for a, b in v[2]) + '}'
        if k == 'iter': return f"iter({v[1]},{v[2]})"
        if k == 'not': return '!' + v[1]
        if k == 'clo':
            b = self.F.B.get(v[1]); 
            return 'λ{' + ','.join(self.render(st, x, d - 1) for x in v[2]) + '}@' + self.clo_sig(v[1])
        if k == 'fn': return 'fn ' + short(v[1]['path'])
        if k == 'discr': return f"discr({v[1]})"
        return k
    def clo_sig(self, key):
        """A closure is named by what it calls, not by where it is."""
        b = self.F.B.get(key)
        if not b: return '?'
        cs = sorted({short(f['path']) for f, *_ in self.F.callees(b) if f})
        return '|'.join(cs)

    # ---------------------------------------------------------------- running
    def run(self, body, args, st=None, facts=None):
        st = st or State()
        if facts: st.facts.update(facts)
        out = []
        for s, rv in self.call_body(body, args, st, 0, ()):
            out.append((s, rv))
        return out
    def call_body(self, body, args, st, depth, stack):
        self.steps += 1
        if self.steps > self.budget: raise Budget(body['path'])
        self.fid += 1; fid = self.fid
        fr = {'id': fid, 'b': body, 'stack': stack + (body['key'],)}
        n = body['argc']
        args = list(args)
        if body.get('spread') is not None and len(args) > n:
            k = body['spread'] - 1
            args = args[:k] + [('tuple', tuple(args[k:]))]
        for i in range(n):
            st.mem[(fid, i + 1)] = args[i] if i < len(args) else TOP
        work = [(0, st)]
        while work:
            bi, s = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.budget: raise Budget(body['path'])
                vk = (fid, bi); c = s.visits.get(vk, 0) + 1; s.visits[vk] = c
                if self.widen and c > 1 and not body['local']: pass
                elif self.widen and c > 1:
                    hv = self.loops(body).get(bi)
                    if hv is not None:
                        if c > 2: self.bounded += 1; break
                        for l in hv: self.forget(s, fr, l)
                if c > self.loopcap * 3 + self.maxlen:
                    s.cut = f"{body['path']} bb{bi}"; self.cuts += 1; break
                bb = body['bb'][bi]
                for x in bb['s']:
                    if x[0] == '=': self.assign(s, fr, x[1], x[2])
                    elif x[0] == 'sd':
                        r, p, ty = self.place(s, fr, x[1]); v = self.read_path(s, r, p)
                        t = self.F.ty(ty)
                        if t.get('k') == 'adt': self.write_path(s, r, p, ('adt', t['adt'], x[2], v[3] if v[0] == 'adt' else ()))
                t = bb['t']; k = t[0]
                if k == 'goto': bi = t[1]; continue
                if k == 'drop':
                    bi = t[2]; continue
                if k == 'assert':
                    if self.record_asserts: s.asserts += ((body['path'], bi, t),)
                    v = self.truth(s, self.operand(s, fr, t[1]))
                    if v is None and getattr(self, 'widen', False):
                        c = self.operand(s, fr, t[1]); s2 = s.copy(); s = s.copy()
                        if c[0] in ('tok', 'not'): self.assume(s2, c[1], (not t[2]) == (c[0] == 'tok')); self.assume(s, c[1], t[2] == (c[0] == 'tok'))
                        self.panic(s2, fr, 'assert ' + str(t[3]), [self.operand(s2, fr, o) for o in t[6]] if len(t) > 6 and isinstance(t[6], list) else [], t[5])
                    elif v is not t[2]: self.panic(s, fr, 'assert ' + str(t[3]), [self.operand(s, fr, o) for o in t[6]] if len(t) > 6 and isinstance(t[6], list) else [], t[5])
                    if v is (not t[2]): break
                    bi = t[4]; continue
                if k == 'return':
                    rv = s.mem.get((fid, 0), UNIT)
                    if rv == ('undef',): rv = UNIT
                    # drop the frame's cells that nothing can reach any more
                    yield s, rv
                    break
                if k == 'switch':
                    nxt = self.switch(s, fr, t)
                    if not nxt: break
                    for (b2, s2) in nxt[1:]: work.append((b2, s2))
                    bi, s = nxt[0]; continue
                if k == 'call':
                    res = self.call(s, fr, t, depth, bb)
                    if t[4] is None:
                        f = (t[1].get('k') or {}).get('fn') or {}
                        for s2, rv in res or [(s, None)]: self.panic(s2, fr, f.get('path', '?'), [self.operand(s2, fr, a) for a in t[2]], t[5] if len(t) > 5 and isinstance(t[5], str) else bb.get('sp'))
                        break
                    first = True; nb = []
                    for s2, rv in res:
                        if s2.cut: yield s2, TOP; continue
                        r, p, _ = self.place(s2, fr, t[3])
                        self.write_path(s2, r, p, rv)
                        nb.append((t[4], s2))
                    if not nb: break
                    work.extend(nb[1:][::-1])
                    bi, s = nb[0]; continue
                break  # unreachable/resume
            else: pass
            if s.cut: yield s, TOP

    def loops(self, b):
        """{loop head: locals assigned in the loop that also carry a value around it}."""
        if b['key'] in self._loops: return self._loops[b['key']]
        def succ(t):
            k = t[0]
            if k == 'goto': return [t[1]]
            if k == 'drop': return [t[2]]
            if k == 'assert': return [t[4]]
            if k == 'switch': return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
            if k == 'call': return [t[4]] if t[4] is not None else []
            return []
        n = len(b['bb']); S = [[x for x in succ(bb['t']) if isinstance(x, int)] for bb in b['bb']]
        P = [[] for _ in range(n)]
        for i, xs in enumerate(S):
            for x in xs: P[x].append(i)
        color = [0] * n; back = []; stk = [(0, iter(S[0]))]; color[0] = 1
        while stk:
            u, it = stk[-1]
            for v in it:
                if color[v] == 1: back.append((u, v))
                elif color[v] == 0: color[v] = 1; stk.append((v, iter(S[v]))); break
            else: color[u] = 2; stk.pop()
        out = {}
        for u, h in back:
            nodes = {h}; w = [u]
            while w:
                x = w.pop()
                if x in nodes: continue
                nodes.add(x); w += P[x]
            inn, outside = set(), set(range(1, b['argc'] + 1))
            for i, bb in enumerate(b['bb']):
                t = bb['t']; ls = {x[1][0] for x in bb['s'] if x[0] == '='} | ({t[3][0]} if t[0] == 'call' else set()) | {x[2][2][0] for x in bb['s'] if x[0] == '=' and x[2][0] == 'ref' and x[2][1] == 'mut'}
                (inn if i in nodes else outside).update(ls)
            out.setdefault(h, set()).update(inn & outside)
        self._loops[b['key']] = out; return out
    def forget(self, st, fr, l):
        v = st.mem.get((fr['id'], l))
        if v is None or v[0] in ('iter', 'clo', 'fn'): return
        t = self.F.ty(fr['b']['locals'][l]); a = t.get('adt') or ''
        if a.startswith(('core::', 'alloc::', 'std::', 'regex::')) and re.search(r'iter|Iter|Range|Drain', a): return
        n = f"loop{fr['id']}.{l}"
        if v[0] == 'ref':
            if not t.get('mut'): return
            o = self.read_path(st, v[1], v[2])
            if o[0] in ('iter', 'clo', 'fn') or o[0] == 'adt' and re.search(r'iter|Iter|Range|Drain', o[1]) and o[1].startswith(('core::', 'alloc::', 'std::')): return
            for k in [k for k in st.facts if n in k]: del st.facts[k]
            for k in [k for k in st.mem if k[0] == 'T' and isinstance(k[1], str) and k[1].startswith(n)]: del st.mem[k]
            self.write_path(st, v[1], v[2], tok(n)); return
        for k in [k for k in st.facts if n in k]: del st.facts[k]
        for k in [k for k in st.mem if k[0] == 'T' and isinstance(k[1], str) and k[1].startswith(n)]: del st.mem[k]
        st.mem[(fr['id'], l)] = tok(n)

    # ---------------------------------------------------------------- operands / rvalues
    def operand(self, st, fr, o):
        if 'c' in o:
            v = self.read(st, fr, o['c'])
            if v[0] == 'tok' and len(v) == 2 and len(o['c']) > 1 and self.F.ty(self.place_ty(fr, o['c'])).get('k') == 'prim': v = self.snap(st, v)
            return v
        if 'm' in o: return self.read(st, fr, o['m'])
        return self.constant(st, fr, o['k'])
    def constant(self, st, fr, k):
        if 'fn' in k: return ('fn', k['fn'])
        if 'str' in k: return const(k['str'])
        if 'bytes' in k: return const(bytes(k['bytes']))
        ts = self.F.tys(k['t'])
        if 'int' in k:
            if ts == 'bool': return const(bool(k['int']))
            t = self.F.ty(k['t'])
            if t.get('k') == 'adt':
                a = self.F.adts.get(t['adt'])
                if a and a['kind'] == 'enum' and all(not v['f'] for v in a['variants']):
                    for i, v in enumerate(a['variants']):
                        if int(v['d']) == k['int']: return ('adt', t['adt'], i, ())
                if a and a['kind'] == 'enum' and t.get('args') and all(self.F.tys(x) == '()' for x in t['args']) and t['adt'].startswith('core::'):
                    for i, v in enumerate(a['variants']):      # every payload is (): the scalar is the tag
                        if int(v['d']) == k['int']: return ('adt', t['adt'], i, tuple(UNIT for _ in v['f']))
                if t['adt'] == 'core::option::Option' and k['int'] == 0 and t.get('args') and self.F.ty(t['args'][0]).get('k') in ('ref', 'ptr'): return ('adt', t['adt'], 0, ())
                return tok('const:' + str(k.get('named', ts)) + '#' + str(k['int']))
            return const(k['int'])
        if 'raw' in k and self.F.ty(self.F.peel(k['t'])).get('adt') in RAW: return tok(f"raw({bytes(k['raw']).hex()})")
        if 'promoted' in k:
            b = self.F.B.get(k['promoted'])
            if b is None:
                # generic instantiation of a local fn: fall back to any promoted with the same path suffix
                return tok('const:' + short(k['promoted']))
            for s, rv in self.call_body(b, [], st, 0, ()):
                return rv
            return TOP
        if 'named' in k:
            b = self.F.B.get(f"{self.F.crate}|{k['named']}")
            if b is not None and b['key'] not in fr['stack']:
                for s, rv in self.call_body(b, [], st, 0, fr['stack']): return rv
            return tok('const:' + k['named'])
        if 'static' in k: return ('ref', ('T', 'static:' + k['static']), ())
        if 'zst' in k:
            t = self.F.ty(k['t'])
            if t.get('k') == 'adt': return ('adt', t['adt'], 0, ())
            if t.get('k') == 'closure':
                for b in self.F.by_root.values():
                    for c in b:
                        if c['path'] == t['def']: return ('clo', c['key'], ())
                return ('clo', t['def'], ())
            return UNIT
        return tok('const:' + str(k.get('x', ts))[:80])
    def assign(self, st, fr, pl, r):
        v = self.rvalue(st, fr, r)
        root, path, _ = self.place(st, fr, pl)
        self.write_path(st, root, path, v)
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use': return self.operand(st, fr, r[1])
        if k == 'ref' or k == 'addr':
            root, path, ty = self.place(st, fr, r[2])
            return ('ref', root, path)
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            if 'IntToInt' in r[1] and v[0] in ('tok', 'const'):
                d, f = self.F.tys(r[3]), self.op_ty(fr, r[2]); f = self.F.tys(f) if f is not None else ''
                if width(d) < width(f):
                    if v[0] == 'tok': return tok(self.nm(f"as_{d}({self.render(st, v)})"))
                    if isinstance(v[1], int): n = v[1] % 2**width(d); return const(n - 2**width(d) if d[0] == 'i' and n >= 2**(width(d) - 1) else n)
            return v
        if k == 'bin':
            x, y = self.operand(st, fr, r[2]), self.operand(st, fr, r[3]); op = r[1]
            if op in CMP and op not in ('Eq', 'Ne') and const(0) in (x, y):      # nothing unsigned is below zero: above it is the same as not it
                t = self.op_ty(fr, r[2])
                if t is not None and self.F.tys(t) in UNSIGNED: op = {'Gt': 'Ne', 'Le': 'Eq', 'Lt': 'Lt', 'Ge': 'Ge'}[op] if y == const(0) else {'Lt': 'Ne', 'Ge': 'Eq', 'Gt': 'Gt', 'Le': 'Le'}[op]
            v = self.binop(st, op, x, y)
            if getattr(self, 'widen', False) and r[1] in ('Shr', 'BitAnd', 'Rem') and v[0] == 'tok':
                m = re.fullmatch(r'(?:Shr|Rem)\(.*,(\d+)\)|BitAnd\((\d+),.*\)|BitAnd\(.*,(\d+)\)', v[1]); t = self.op_ty(fr, r[2]); t = self.F.tys(t) if t is not None else ''
                if m and re.fullmatch(r'u(8|16|32|64|128|size)', t):
                    n = int(m.group(1) or m.group(2) or m.group(3))
                    self.narrow(st, v[1], 0, 2 ** max(width(t) - n, 0) - 1 if r[1] == 'Shr' else n - 1 if r[1] == 'Rem' and n else n)
            return v
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not': return self.negate(st, v)
            if r[1] == 'PtrMetadata': return tok(self.nm('len(' + self.render(st, v) + ')'))
            if v[0] == 'const' and r[1] == 'Neg': return const(-v[1])
            return tok(self.nm(f"{r[1]}({self.render(st, v)})"))
        if k == 'discr':
            root, path, ty = self.place(st, fr, r[1])
            v = self.read_path(st, root, path)
            c = self.loc(st, v)
            if c is not None: v = c
            if v[0] == 'adt':
                a = self.F.adts.get(v[1])
                return const(int(a['variants'][v[2]]['d'])) if a else const(v[2])
            if v[0] in ('tok', 'rec'): return ('discr', v[1], ty)
            if v[0] == 'const' and isinstance(v[1], (bool, int)): return v
            return ('discr', self.nm(self.render(st, v)), ty)
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in r[2]); a = r[1]
            if a[0] == 'tuple': return ('tuple', ops)
            if a[0] == 'adt':
                if a[1] in PTRISH: return ops[0] if ops else TOP
                return ('adt', a[1], a[2], ops)
            if a[0] == 'closure': return ('clo', a[1], ops)
            if a[0] == 'array': return ('array', ops)
            if a[0] == 'rawptr': return ops[0]
            return TOP
        if k == 'repeat': return tok(self.nm(f"repeat({self.render(st, self.operand(st, fr, r[1]))},{r[2]})"))
        if k == 'len': return tok(self.nm('len(' + self.render(st, self.read(st, fr, r[1])) + ')'))
        if k == 'tls': return ('ref', ('T', 'tls:' + r[1]), ())
        return TOP
    def negate(self, st, v):
        if v[0] == 'const' and isinstance(v[1], bool): return const(not v[1])
        if v[0] == 'not': return tok(v[1])
        if v[0] == 'tok':
            f = st.facts.get(v[1])
            if isinstance(f, bool): return const(not f)
            return ('not', v[1])
        return TOP
    def truth(self, st, v):
        if v[0] == 'const' and isinstance(v[1], bool): return v[1]
        if v[0] == 'tok':
            f = st.facts.get(v[1]); return f if isinstance(f, bool) else None
        if v[0] == 'not':
            f = st.facts.get(v[1]); return (not f) if isinstance(f, bool) else None
        return None
    def binop(self, st, op, a, b):
        a = self.deref(st, a) if a[0] == 'ref' else a; b = self.deref(st, b) if b[0] == 'ref' else b
        ov = op.endswith('WithOverflow'); op = op.replace('WithOverflow', '').replace('Unchecked', '')
        res = None
        if a[0] == 'tok' and not (a[1] not in st.facts): 
            f = st.facts[a[1]]
            if isinstance(f, (bool, int)): a = const(f)
        if b[0] == 'tok' and b[1] in st.facts and isinstance(st.facts[b[1]], (bool, int)): b = const(st.facts[b[1]])
        if a[0] == 'const' and b[0] == 'const' and isinstance(a[1], int) and isinstance(b[1], int):
            x, y = a[1], b[1]
            try:
                res = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x // y if y else 0, 'Rem': lambda: x % y if y else 0,
                       'Eq': lambda: x == y, 'Ne': lambda: x != y, 'Lt': lambda: x < y, 'Le': lambda: x <= y, 'Gt': lambda: x > y, 'Ge': lambda: x >= y,
                       'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y}[op]()
                if isinstance(x, bool) and isinstance(y, bool) and op in ('BitAnd', 'BitOr', 'BitXor'): res = bool(res)
                res = const(res)
            except KeyError: res = None
        if res is None and op in CMP: a, b = self.shift(a, b)
        if res is None and op in CMP and a[0] == b[0] == 'const': return self.binop(st, op, a, b)
        if res is None and op in CMP and {a[0], b[0]} == {'tok', 'const'}:
            res = self.by_interval(st, op, a, b)
        if res is None and op in ('Add', 'Sub'):
            x, n = (a, b) if b[0] == 'const' else (b, a)
            if x[0] == 'tok' and n[0] == 'const' and isinstance(n[1], int) and not isinstance(n[1], bool) and (op == 'Add' or n is b):
                base, off = linear(x[1]); off += n[1] if op == 'Add' else -n[1]
                if base != x[1] or off == 0: res = tok(base) if off == 0 else tok(self.nm(f"Add({off},{base})" if off > 0 else f"Sub({base},{-off})"))
        if res is None:
            ra, rb = self.render(st, a), self.render(st, b)
            if op in ('Eq', 'Ne'):
                if ra == rb and a[0] != 'undef': res = const(op == 'Eq')
                elif a[0] == 'discr' and b[0] == 'const' or b[0] == 'discr' and a[0] == 'const':
                    d, c = (a, b[1]) if a[0] == 'discr' else (b, a[1])
                    vn = self.variant_name(d[2], c); known = st.facts.get(d[1])
                    n = self.nm(f"is({d[1]},{vn})"); res = tok(n) if op == 'Eq' else ('not', n)
                    if n in st.facts: res = const(st.facts[n] == (op == 'Eq'))
                    elif isinstance(known, str): res = const((known == vn) == (op == 'Eq'))
                else:
                    n = self.nm('eq(%s,%s)' % tuple(sorted((ra, rb)))); res = tok(n) if op == 'Eq' else ('not', n)
                    if n in st.facts: res = const(st.facts[n] == (op == 'Eq'))
            elif op in ('Lt', 'Gt', 'Le', 'Ge'):
                x, y = (ra, rb) if op in ('Lt', 'Ge') else (rb, ra)
                n = self.nm(f"lt({x},{y})"); neg = op in ('Le', 'Ge')
                if n in st.facts: res = const(st.facts[n] != neg)
                else: res = ('not', n) if neg else tok(n)
            elif op in ('BitAnd', 'BitOr') and (self.truth(st, a) is not None or self.truth(st, b) is not None):
                ta, tb = self.truth(st, a), self.truth(st, b)
                if op == 'BitAnd': res = const(False) if (ta is False or tb is False) else (b if ta else a)
                else: res = const(True) if (ta or tb) else (b if ta is False else a)
            else:
                if op in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor'): ra, rb = sorted((ra, rb))
                res = tok(self.nm(f"{op}({ra},{rb})"))
        return ('tuple', (res, const(False))) if ov else res
    def shift(self, a, b):
        """Comparisons of `x ± c` (which did not overflow) as comparisons of x."""
        num = lambda v: v[0] == 'const' and isinstance(v[1], int) and not isinstance(v[1], bool)
        la = (None, a[1]) if num(a) else linear(a[1]) if a[0] == 'tok' else None
        lb = (None, b[1]) if num(b) else linear(b[1]) if b[0] == 'tok' else None
        if not la or not lb or not (la[1] or lb[1]) or la[0] is lb[0] is None: return a, b
        if la[0] == lb[0]: return const(la[1]), const(lb[1])
        if la[0] is None: return const(la[1] - lb[1]), tok(lb[0])
        if lb[0] is None: return tok(la[0]), const(lb[1] - la[1])
        d = la[1] - lb[1]
        if d == 0: return tok(la[0]), tok(lb[0])
        return (tok(self.nm(f"Add({d},{la[0]})")), tok(lb[0])) if d > 0 else (tok(la[0]), tok(self.nm(f"Add({-d},{lb[0]})")))
    def by_interval(self, st, op, a, b):
        if a[0] == 'const': a, b, op = b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
        k = b[1]; l, h = self.iv(st, a[1])
        if not isinstance(k, int) or isinstance(k, bool): return None
        lt = True if h is not None and h < k else False if l is not None and l >= k else None
        gt = True if l is not None and l > k else False if h is not None and h <= k else None
        r = None
        if op == 'Lt': r = lt
        elif op == 'Ge': r = None if lt is None else not lt
        elif op == 'Gt': r = gt
        elif op == 'Le': r = None if gt is None else not gt
        else:
            e = False if lt or gt else True if (lt is False and gt is False) else None
            r = None if e is None else (e if op == 'Eq' else not e)
        return None if r is None else const(r)
    def variant_name(self, ty, d):
        t = self.F.ty(ty)
        if t.get('k') == 'adt':
            a = self.F.adts.get(t['adt'])
            if a:
                for v in a['variants']:
                    if int(v['d']) == d: return v['n']
        return str(d)

    # ---------------------------------------------------------------- branches
    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1]); arms, other = t[2], t[3]
        v = self.deref(st, v) if v[0] == 'ref' else v
        if v[0] == 'tok' and v[1] in st.facts and not isinstance(st.facts[v[1]], str): v = const(st.facts[v[1]])
        tr = self.truth(st, v)
        if tr is not None: v = const(tr)
        if v[0] == 'const':
            c = int(v[1]) if isinstance(v[1], (bool, int)) else v[1]
            for x, b in arms:
                if x == c: return [(b, st)]
            return [(other, st)]
        if v[0] == 'discr':
            ty = v[2]; T = self.F.ty(ty); a = self.F.adts.get(T.get('adt')) if T.get('k') == 'adt' else None
            if a and a['kind'] == 'enum':
                f = st.facts.get(v[1])
                out = []; seen = set()
                for vi, var in enumerate(a['variants']):
                    if f is not None and f != var['n']: continue
                    neg = st.facts.get('¬' + v[1])
                    if f is None and neg and var['n'] in neg: continue
                    d = int(var['d']); tgt = other
                    for x, b in arms:
                        if x == d: tgt = b
                    out.append((tgt, var['n']))
                # group variants with the same target (wildcard arms) into one path when many
                groups = {}
                for tgt, n in out: groups.setdefault(tgt, []).append(n)
                res = []
                for tgt, ns in groups.items():
                    if body_unreachable(fr['b'], tgt): continue
                    if len(ns) == 1:
                        s2 = st.copy(); s2.facts[v[1]] = ns[0]; res.append((tgt, s2))
                    elif len(out) > 6:
                        s2 = st.copy(); s2.facts['¬' + v[1]] = frozenset(n for _, n in out if n not in ns) | (st.facts.get('¬' + v[1]) or frozenset()); res.append((tgt, s2))
                    else:
                        for n in ns:
                            s2 = st.copy(); s2.facts[v[1]] = n; res.append((tgt, s2))
                return res
            # unknown enum
            res = []
            for x, b in arms:
                s2 = st.copy(); s2.facts[f"discr({v[1]})"] = x; res.append((b, s2))
            if not body_unreachable(fr['b'], other):
                s2 = st.copy(); res.append((other, s2))
            return res
        if v[0] in ('tok', 'not'):
            isbool = self.F.tys(t[5]) == 'bool'
            res = []
            if isbool:
                for val in (False, True):
                    tgt = other
                    for x, b in arms:
                        if x == int(val): tgt = b
                    s2 = st.copy(); fv = val if v[0] == 'tok' else (not val)
                    self.assume(s2, v[1], fv)
                    res.append((tgt, s2))
                return res
            for x, b in arms:
                l, h = self.iv(st, v[1])
                if isinstance(x, int) and (l is not None and x < l or h is not None and x > h) or x in (st.facts.get('¬' + v[1]) or ()): continue
                s2 = st.copy(); s2.facts[v[1]] = x
                if isinstance(x, int): self.narrow(s2, v[1], x, x)
                res.append((b, s2))
            if not body_unreachable(fr['b'], other):
                no = frozenset(x for x, _ in arms) | (st.facts.get('¬' + v[1]) or frozenset()); s2 = st.copy(); s2.facts['¬' + v[1]] = no
                l = self.iv(s2, v[1])[0]
                if l is None and re.match(r'u(8|16|32|64|128|size)$', self.F.tys(t[5])): l = 0
                if l is not None and l in no:
                    while l in no: l += 1
                    self.narrow(s2, v[1], l, None)
                res.append((other, s2))
            return res
        res = []
        for x, b in arms: res.append((b, st.copy()))
        if not body_unreachable(fr['b'], other): res.append((other, st.copy()))
        return res
    def iv(self, st, name): return st.facts.get('iv:' + name, (None, None))
    def narrow(self, st, name, lo, hi):
        l, h = self.iv(st, name)
        l = lo if l is None else l if lo is None else max(l, lo)
        h = hi if h is None else h if hi is None else min(h, hi)
        st.facts['iv:' + name] = (l, h)
        if l is not None and l == h: st.facts[name] = l
    def assume(self, st, name, val):
        st.facts[name] = val
        m = INTREL.match(name)
        if m:
            r, a, b = m.groups(); ia, ib = isint(a), isint(b)
            if ia != ib:
                k = int(a) if ia else int(b); x = b if ia else a
                if r == 'eq':
                    if val: self.narrow(st, x, k, k)
                    else:
                        l, h = self.iv(st, x)
                        if l == k: self.narrow(st, x, k + 1, None)
                        elif h == k: self.narrow(st, x, None, k - 1)
                elif ia: self.narrow(st, x, k + 1 if val else None, None if val else k)
                else: self.narrow(st, x, None if val else k, k - 1 if val else None)
        if name.startswith('is('):
            inner = name[3:-1]; x, _, n = inner.rpartition(',')
            if not val: n = {'Ok': 'Err', 'Err': 'Ok', 'Some': 'None', 'None': 'Some'}.get(n)
            if n: st.facts[x] = n

    # ---------------------------------------------------------------- calls
    def call(self, st, fr, t, depth, bb):
        fv = self.constant(st, fr, t[1]['k']) if 'k' in t[1] else self.operand(st, fr, t[1])
        args = [self.operand(st, fr, a) for a in t[2]]
        atys = [self.op_ty(fr, a) for a in t[2]]
        dty = self.place_ty(fr, t[3])
        return self.call_value(st, fr, fv, args, atys, dty, depth, bb)
    def op_ty(self, fr, o):
        if 'k' in o: return o['k']['t']
        return self.place_ty(fr, o.get('c') or o.get('m'))
    def place_ty(self, fr, pl):
        ty = fr['b']['locals'][pl[0]]
        for e in pl[1:]:
            if e == '*': ty = self.proj_ty(ty, '*')
            elif e != '?' and e[0] == 'f': ty = e[2]
            elif e != '?' and e[0] in ('i', 'ci'): ty = self.F.ty(ty).get('to', ty)
        return ty
    def call_value(self, st, fr, fv, args, atys, dty, depth, bb):
        fv = self.deref(st, fv) if fv[0] == 'ref' else fv
        if fv[0] == 'fn': return self.call_fn(st, fr, fv[1], args, atys, dty, depth, bb)
        if fv[0] == 'clo': return self.call_closure(st, fr, fv, args, depth)
        nm = self.nm(f"(*{self.render(st, fv)})")
        return self.opaque_call(st, {'path': nm, 'u': nm, 'name': nm, 'crate': '?', 'indirect': True}, args, atys, dty, bb, event=True)
    def call_closure(self, st, fr, clo, args, depth, selfref=None):
        b = self.F.B.get(clo[1])
        if b is None: return [(st, tok(self.nm(f"λ?({','.join(self.render(st, a) for a in args)})")))]
        if depth > self.maxdepth: raise Budget('depth ' + b['path'])
        t = self.F.ty(b['locals'][1]) if b['argc'] else {}
        if t.get('k') == 'ref':
            if selfref is None:
                self.fid += 1; root = (self.fid, 'clo'); st.mem[root] = clo; selfref = ('ref', root, ())
            a0 = selfref
        else: a0 = clo
        self.inlined.add(b['path'])
        return self.call_body(b, [a0] + list(args), st, depth + 1, fr['stack'])
    def call_fn(self, st, fr, c, args, atys, dty, depth, bb):
        u = c['u']; path = c['path']; key = c.get('key')
        if self.partial is not None and self.partial(c): self.panic(st, fr, path, args, bb.get('sp'))
        ev = self.events(c)
        if ev and not (ev in self.unfold and args and self.deref(st, args[0])[0] == 'adt'): return self.opaque_call(st, c, args, atys, dty, bb, event=ev)
        for k in (u, path, c['name']):
            m = self.models.get(k)
            if m:
                r = m(self, st, fr, c, args, atys, dty, depth, bb)
                if r is not None: return r
        head, _, vn = u.rpartition('::')
        ctor = self.F.adts.get(head) or self.F.adts.get(u)
        if ctor and c.get('key') not in self.F.B:
            for vi, v in enumerate(ctor['variants']):
                if v['n'] == vn and len(v['f']) == len(args): return [(st, ('adt', head if self.F.adts.get(head) else u, vi, tuple(args)))]
        m = BUILTIN.get(u) or BUILTIN.get(path)
        if m:
            r = m(self, st, fr, c, args, atys, dty, depth, bb)
            if r is not None: return r
        # calling closures / fn items through Fn* traits
        if u.startswith('core::ops::function::Fn') and args:
            sref = args[0] if args[0][0] == 'ref' else None
            while sref is not None:
                x = self.read_path(st, sref[1], sref[2])
                if x[0] != 'ref': break
                sref = x
            f = self.deref(st, args[0])
            a = args[1] if len(args) > 1 else UNIT
            inner = list(a[1]) if a[0] == 'tuple' else [self.proj(st, a, ('f', i, -1, None)) for i in range(1)]
            if f[0] == 'clo': return self.call_closure(st, fr, f, inner, depth, sref)
            if f[0] == 'fn':
                return self.call_fn(st, fr, f[1], inner, [None] * len(inner), dty, depth, bb)
            nm = self.nm(f"(*{self.render(st, f)})")
            return self.opaque_call(st, {'path': nm, 'u': nm, 'name': nm, 'crate': '?', 'indirect': True}, inner, [None] * len(inner), dty, bb, event=True)
        if self.is_ident(c, args, atys, dty):
            v = args[0]
            if dty is not None and atys and atys[0] is not None and self.F.ty(atys[0]).get('k') == 'ref' and self.F.ty(dty).get('k') not in ('ref', 'ptr'):
                v = self.snap(st, self.deref(st, v, 8))
            return [(st, v)]
        if u in ('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne') and len(args) == 2:
            return [(s2, self.negate(s2, r) if u.endswith('ne') else r) for s2, r in self.eq_fork(st, args[0], args[1], atys[0] if atys else None, atys[1] if len(atys) > 1 else None)]
        if u == 'core::intrinsics::discriminant_value':
            v = self.deref(st, args[0])
            if v[0] == 'adt': return [(st, const(int(self.F.adts[v[1]]['variants'][v[2]]['d'])))]
            return [(st, ('discr', self.render(st, v), self.F.ty(atys[0]).get('to') if atys[0] is not None else None))]
        if u == 'core::iter::traits::iterator::Iterator::next' and key in self.F.B and not self.F.B[key]['local'] and self.F.B[key]['crate'] != self.F.crate and args and self.deref(st, args[0])[0] == 'tok' and self.target(args[0]):
            return _iter_next(self, st, fr, c, args, atys, dty, depth, bb)      # an iterator somebody else made: its inner parts are nobody's business
        if key in self.F.B and not self.opaque(c):
            b = self.F.B[key]
            # core::iter / slice iterators we model ourselves
            if (key not in fr['stack'] or (ev and 2 or self.recurse) > fr['stack'].count(key)) and depth < self.maxdepth and not self.skip_inline(c, b):
                self.inlined.add(b['path'])
                a2 = args
                return self.call_body(b, a2, st, depth + 1, fr['stack'])
        if u == 'core::iter::traits::iterator::Iterator::next' and args and self.deref(st, args[0])[0] == 'tok' and self.target(args[0]):
            return _iter_next(self, st, fr, c, args, atys, dty, depth, bb)
        return self.opaque_call(st, c, args, atys, dty, bb)
    def skip_inline(self, c, b):
        p = c['path']
        if b['local']: return False
        return p.startswith('core::ptr') or (c['name'] == 'next' and 'core::str::iter' in p) or p.startswith('core::mem::') or 'core::slice::iter' in p or p.startswith('core::iter::traits::iterator::iter_compare') or 'FromIterator' in p or c['name'] in ('size_hint', 'fmt', 'hash', 'cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge')
    def is_ident(self, c, args, atys, dty):
        if not args: return False
        u = c['u']
        if c['name'] in ('clone', 'to_owned') and u in ('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned'): return True
        if u in IDENT or c['path'] in IDENT:
            return True
        if u in ('core::convert::Into::into', 'core::convert::From::from') and dty is not None:
            # string-ish / wrapping conversions that keep the value
            t = self.F.ty(dty)
            if t.get('k') == 'adt' and t['adt'] in IDENT_INTO_TARGETS and c.get('crate') in ('core', 'alloc', 'std'): return True
            if atys and atys[0] == dty: return True
        return False
    def snap(self, st, v, n=4):
        """A copy of the current value: tokens that name an overwritten location are resolved."""
        while n:
            c = self.loc(st, v)
            if c is None: break
            v = c; n -= 1
        return frozen(v)
    def vname(self, st, v, fam):
        """Which variant of Option/Result is v known to be (None: unknown)?"""
        if v[0] == 'adt': return fam[v[2]] if v[1].endswith(('Option', 'Result')) else None
        if v[0] in ('tok', 'rec'): return st.facts.get(v[1])
        return None
    def eq_fork(self, st, a, b, ta, tb, d=3):
        """a == b; an Option on either side is split into None/Some so that `x == Some(y)`, `matches!`, `is_some_and` agree."""
        a = self.deref(st, a); b = self.deref(st, b)
        T = self.F.ty(self.F.peel(ta)) if ta is not None else {}
        isopt = (T.get('k') == 'adt' and T['adt'] == 'core::option::Option') or any(x[0] == 'adt' and x[1] == 'core::option::Option' for x in (a, b))
        if not isopt or d == 0 or not all(x[0] in ('adt', 'tok') for x in (a, b)): return [(st, self.eqv(st, a, b))]
        if a == b: return [(st, const(True))]
        out = []
        def split(s, v):
            if v[0] == 'adt': return [(s, v)]
            f = s.facts.get(v[1]); r = []
            for nm, vi in (('None', 0), ('Some', 1)):
                if f is None or f == nm:
                    s2 = s.copy(); s2.facts[v[1]] = nm
                    r.append((s2, ('adt', 'core::option::Option', vi, (tok(v[1] + '.Some.0'),) if vi else ())))
            return r
        it = T['args'][0] if T.get('args') else None
        for s1, x in split(st, a):
            for s2, y in split(s1, b):
                if x[2] != y[2]: out.append((s2, const(False)))
                elif x[2] == 0: out.append((s2, const(True)))
                else: out.extend(self.eq_fork(s2, x[3][0], y[3][0], it, None, d - 1))
        return out
    def eq(self, st, a, b, neg):
        a = self.deref(st, a); b = self.deref(st, b)
        r = self.eqv(st, a, b)
        return self.negate(st, r) if neg else r
    def eqv(self, st, a, b):
        if a[0] == 'const' and b[0] == 'const': return const(a[1] == b[1])
        if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1] and not (a[1].endswith('Cow')):
            if a[2] != b[2]: return const(False)
            if not a[3]: return const(True)
            if len(a[3]) == 1: return self.eqv(st, self.deref(st, a[3][0]), self.deref(st, b[3][0]))
        if self.truth(st, a) is not None and self.truth(st, b) is not None: return const(self.truth(st, a) == self.truth(st, b))
        for x, y in ((a, b), (b, a)):
            tx = self.truth(st, x)
            if x[0] == 'const' and isinstance(x[1], bool) and y[0] in ('tok', 'not'): return y if tx else self.negate(st, y)
        ra, rb = self.render(st, a), self.render(st, b)
        if ra == rb: return const(True)
        n = self.nm('eq(%s,%s)' % tuple(sorted((ra, rb))))
        if n in st.facts: return const(st.facts[n])
        return tok(n)
    def opaque_call(self, st, c, args, atys, dty, bb, event=None):
        rargs = [self.render(st, a) for a in args]
        label = event if isinstance(event, str) else short(c['path'])
        name = f"{label}({','.join(rargs)})"
        if event:
            k = len(st.events) + 1
            if k > self.maxev: self.bounded += 1; return []
            sargs = tuple(self.render_state(st, a, ty) or r for a, ty, r in zip(args, list(atys) + [None] * len(args), rargs))
            st.events = st.events + (Event(label, sargs, bb.get('sp'), c, k),)
            rname = f"{label}#{k}"
            if dty is not None:
                T = self.F.ty(dty)
                if T.get('k') == 'adt' and T['adt'] == 'core::result::Result' and self.F.tys(T['args'][0]) == '()': st.mem[('T', rname + '.Ok.0')] = UNIT
            pre = st
            self.havoc(st, args, atys, f"'{k}", None, snapshot=True)
        else:
            self.opaques.add(c['path'])
            rname = self.nm(name)
            self.havoc(st, args, atys, None, name)
        if dty is not None and self.F.tys(dty) == '()': rv = UNIT
        elif dty is not None and self.F.tys(dty) == '!': return []
        elif not event and self.hands_back(atys, dty) and self.target(args[0]): rv = args[0]
        else: rv = tok(rname)
        return [(st, rv)]
    def hands_back(self, atys, dty):
        """A method of a builder: takes itself mutably and hands itself back."""
        if not atys or atys[0] is None or dty is None: return False
        a, d = self.F.ty(atys[0]), self.F.ty(dty)
        if not (a.get('k') == d.get('k') == 'ref' and a.get('mut') and d.get('mut')): return False
        a, d = self.F.ty(a['to']), self.F.ty(d['to'])
        return a.get('k') == d.get('k') == 'adt' and a['adt'] == d['adt'] and a['adt'].split('::')[-1].endswith(('Builder', 'Command'))
    def render_state(self, st, a, ty):
        """A TaskState/TaskStateView argument, field by field (so that whole-record and rebuilt-record forms compare equal)."""
        if ty is None: return None
        t = self.F.ty(self.F.peel(ty))
        if t.get('k') != 'adt': return None
        ad = self.F.adts.get(t['adt'])
        if not ad or ad['crate'] != self.F.crate or ad['kind'] != 'struct' or t['adt'].split('::')[-1] not in self.state_types: return None
        v = self.deref(st, a); out = {}
        for fi, f in enumerate(ad['variants'][0]['f']):
            x = self.proj(st, v, ('f', fi, self.F.peel(ty), None))
            out[f['n']] = self.render(st, x)
        return tuple(sorted(out.items()))
    def havoc(self, st, args, atys, suffix, name, snapshot=False):
        for i, (a, ty) in enumerate(zip(args, atys)):
            if ty is None: continue
            self.havoc_val(st, a, ty, suffix, f"{name}" if name else None, i, 3)
    def havoc_val(self, st, v, ty, suffix, name, i, d):
        if d == 0: return
        t = self.F.ty(ty)
        if t.get('k') == 'ref':
            if t.get('mut'):
                tg = self.target(v)
                if tg is None: return
                inner = self.F.ty(t['to'])
                # a mutable record of references (TaskState): havoc what it can reach mutably
                a = self.F.adts.get(inner.get('adt')) if inner.get('k') == 'adt' else None
                cur = self.read_path(st, *tg)
                if a and a['kind'] == 'struct' and a['crate'] == self.F.crate and any(f.get('t') is not None and self.F.ty(f['t']).get('k') == 'ref' for f in a['variants'][0]['f']):
                    for fi, f in enumerate(a['variants'][0]['f']):
                        ft = self.F.ty(f['t'])
                        if ft.get('k') == 'ref' and ft.get('mut'):
                            self.havoc_val(st, self.proj(st, cur, ('f', fi, t['to'], None)), f['t'], suffix, name, i, d - 1)
                    return
                if cur[0] == 'clo':
                    return
                if suffix:
                    base = cur[1] if cur[0] in ('tok', 'rec') else self.render(st, cur)
                    base = base.split("'")[0]
                    self.write_path(st, tg[0], tg[1], tok(self.nm(base + suffix)))
                else:
                    self.write_path(st, tg[0], tg[1], tok(self.nm(f"{name}!{i}" if i else f"{name}!")))
        elif t.get('k') == 'closure' or v[0] == 'clo':
            pass

def body_unreachable(b, bi):
    bb = b['bb'][bi]
    return bb['t'][0] == 'unreachable' and not bb['s']

# -------------------------------------------------------------------- models of core containers
def _iter_next(I, st, fr, c, args, atys, dty, depth, bb):
    it = I.deref(st, args[0])
    tg = I.target(args[0])
    if it[0] == 'tok':
        it = ('iter', it[1], 0)
    if it[0] == 'iter':
        name, idx = it[1], it[2]
        fact = f"has({name},{idx})"
        res = []
        some_ty = ('core::option::Option')
        known = st.facts.get(fact)
        if idx == 0 and isinstance(name, str) and name.startswith(('str::split(', 'str::rsplit(', 'str::splitn(', 'str::rsplitn(')): known = st.facts[fact] = True   # always at least one piece
        if isinstance(name, tuple):   # concrete sequence
            if idx < len(name):
                I.write_path(st, tg[0], tg[1], ('iter', name, idx + 1)); return [(st, ('adt', some_ty, 1, (name[idx],)))]
            return [(st, ('adt', some_ty, 0, ()))]
        if known is not True:
            s2 = st.copy() if known is None else st
            s2.facts[fact] = False
            I.write_path(s2, tg[0], tg[1], ('iter', name, idx))
            res.append((s2, ('adt', some_ty, 0, ())))
        if known is not False and idx < I.maxlen:
            s3 = st if known is not None or not res else st.copy()
            s3.facts[fact] = True
            I.write_path(s3, tg[0], tg[1], ('iter', name, idx + 1))
            el = f"{name}[{idx}]"
            T = I.F.ty(dty); et = None
            v = tok(el)
            if T.get('k') == 'adt' and T['args']:
                ET = I.F.ty(T['args'][0])
                if ET.get('k') == 'tuple': v = ('tuple', tuple(tok(f"{el}.{j}") for j in range(len(ET['args']))))
            res.append((s3, ('adt', some_ty, 1, (v,))))
        return res
    return None
def _mk_iter(I, st, fr, c, args, atys, dty, depth, bb):
    v = I.deref(st, args[0])
    if v[0] == 'iter': return [(st, v)]
    if v[0] in ('vec', 'array'): 
        return [(st, ('iter', tuple(v[1]), 0))]
    if v[0] in ('tok', 'rec'):
        return [(st, ('iter', v[1], 0))]
    if v[0] == 'adt' and v[1].endswith('Range'):
        lo, hi = v[3][0], v[3][1]
        return [(st, v)]
    return None
def _into_iter(I, st, fr, c, args, atys, dty, depth, bb):
    # IntoIterator::into_iter: identity on iterators, element iteration on collections
    v = I.deref(st, args[0])
    at = I.F.ty(I.F.peel(atys[0])) if atys[0] is not None else {}
    if v[0] == 'iter': return [(st, v)]
    if at.get('k') == 'adt' and at['adt'].split('::')[-1] in ('Vec', 'HashSet', 'HashMap', 'BTreeMap', 'BTreeSet', 'VecDeque') or at.get('k') in ('slice', 'array'):
        return _mk_iter(I, st, fr, c, args, atys, dty, depth, bb)
    if at.get('k') == 'adt' and at['adt'] == 'core::option::Option':
        return None
    if at.get('crate') == I.F.crate: return None
    k = c.get('key')
    if k in I.F.B and I.F.B[k]['local']: return None
    return [(st, args[0])]
def _range_next(I, st, fr, c, args, atys, dty, depth, bb):
    v = I.deref(st, args[0]); tg = I.target(args[0])
    O = 'core::option::Option'
    if v[0] == 'adt' and v[1].endswith('Range'):
        lo, hi = v[3][0], v[3][1]
        lt = I.binop(st, 'Lt', lo, hi)
        res = []
        def some(s):
            nx = I.binop(s, 'Add', lo, const(1))
            I.write_path(s, tg[0], tg[1], ('adt', v[1], 0, (nx, hi))); return (s, ('adt', O, 1, (lo,)))
        if lt == const(True) and hi[0] != 'const' and lo[0] == 'const' and lo[1] >= I.maxlen: I.bounded += 1; return []
        if lt == const(True): return [some(st)]
        if lt == const(False): return [(st, ('adt', O, 0, ()))]
        s2 = st.copy(); I.assume(s2, lt[1], lt[0] == 'not'); res.append((s2, ('adt', O, 0, ())))
        if not (lo[0] == 'const' and isinstance(lo[1], int) and lo[1] >= I.maxlen):
            s3 = st.copy(); I.assume(s3, lt[1], lt[0] != 'not'); res.append(some(s3))
        return res
    if v[0] == 'iter': return _iter_next(I, st, fr, c, args, atys, dty, depth, bb)
    return None
def _vec_new(I, st, fr, c, args, atys, dty, depth, bb): return [(st, ('vec', ()))]
def _vec_push(I, st, fr, c, args, atys, dty, depth, bb):
    tg = I.target(args[0]); v = I.deref(st, args[0])
    if v[0] == 'vec':
        I.write_path(st, tg[0], tg[1], ('vec', v[1] + (args[1],))); return [(st, UNIT)]
    return None
def _idx(v): return v[1] if v[0] == 'const' and isinstance(v[1], int) and not isinstance(v[1], bool) else None
def _vec_of(I, st, a):
    tg = I.target(a)
    while tg is not None:
        v = I.read_path(st, *tg)
        if v[0] == 'ref': tg = (v[1], v[2]); continue
        return tg, v
    return None, I.deref(st, a)
def _vec_get(I, st, fr, c, args, atys, dty, depth, bb):
    tg, v = _vec_of(I, st, args[0]); i = _idx(I.deref(st, args[1]))
    if v[0] not in ('vec', 'array') or i is None or tg is None: return None
    if i >= len(v[1]): return [(st, ('adt', O, 0, ()))]
    return [(st, ('adt', O, 1, (('ref', tg[0], tg[1] + (('i', i),)),)))]
def _vec_index(I, st, fr, c, args, atys, dty, depth, bb):
    tg, v = _vec_of(I, st, args[0]); i = _idx(I.deref(st, args[1]))
    if v[0] not in ('vec', 'array') or i is None or tg is None: return None
    return [(st, ('ref', tg[0], tg[1] + (('i', i),)))] if i < len(v[1]) else []
def _vec_remove(I, st, fr, c, args, atys, dty, depth, bb):
    tg, v = _vec_of(I, st, args[0]); i = _idx(I.deref(st, args[1]))
    if v[0] != 'vec' or i is None: return None
    if i >= len(v[1]): return []
    I.write_path(st, tg[0], tg[1], ('vec', v[1][:i] + v[1][i + 1:])); return [(st, v[1][i])]
def _vec_swap_remove(I, st, fr, c, args, atys, dty, depth, bb):
    tg, v = _vec_of(I, st, args[0]); i = _idx(I.deref(st, args[1]))
    if v[0] != 'vec' or i is None or tg is None: return None
    if i >= len(v[1]): return []
    xs = list(v[1]); x = xs[i]; xs[i] = xs[-1]; xs.pop()
    I.write_path(st, tg[0], tg[1], ('vec', tuple(xs))); return [(st, x)]
def _vec_swap(I, st, fr, c, args, atys, dty, depth, bb):
    tg, v = _vec_of(I, st, args[0]); i = _idx(I.deref(st, args[1])); j = _idx(I.deref(st, args[2]))
    if v[0] not in ('vec', 'array') or tg is None or i is None or j is None: return None
    if max(i, j) >= len(v[1]): return []
    xs = list(v[1]); xs[i], xs[j] = xs[j], xs[i]
    I.write_path(st, tg[0], tg[1], (v[0], tuple(xs))); return [(st, UNIT)]
def _vec_reverse(I, st, fr, c, args, atys, dty, depth, bb):
    tg, v = _vec_of(I, st, args[0])
    if v[0] not in ('vec', 'array') or tg is None: return None
    I.write_path(st, tg[0], tg[1], (v[0], tuple(reversed(v[1])))); return [(st, UNIT)]
def _vec_append(I, st, fr, c, args, atys, dty, depth, bb):
    tg, v = _vec_of(I, st, args[0]); t2, w = _vec_of(I, st, args[1])
    if v[0] != 'vec' or w[0] != 'vec' or tg is None or t2 is None: return None
    I.write_path(st, tg[0], tg[1], ('vec', v[1] + w[1])); I.write_path(st, t2[0], t2[1], ('vec', ())); return [(st, UNIT)]
def _vec_split_off(I, st, fr, c, args, atys, dty, depth, bb):
    tg, v = _vec_of(I, st, args[0]); i = _idx(I.deref(st, args[1]))
    if v[0] != 'vec' or i is None or tg is None: return None
    if i > len(v[1]): return []
    I.write_path(st, tg[0], tg[1], ('vec', v[1][:i])); return [(st, ('vec', v[1][i:]))]
def _vec_insert(I, st, fr, c, args, atys, dty, depth, bb):
    tg, v = _vec_of(I, st, args[0]); i = _idx(I.deref(st, args[1]))
    if v[0] != 'vec' or i is None: return None
    if i > len(v[1]): return []
    I.write_path(st, tg[0], tg[1], ('vec', v[1][:i] + (args[2],) + v[1][i:])); return [(st, UNIT)]
def _vec_pop(I, st, fr, c, args, atys, dty, depth, bb):
    tg, v = _vec_of(I, st, args[0])
    if v[0] != 'vec': return None
    if not v[1]: return [(st, ('adt', O, 0, ()))]
    I.write_path(st, tg[0], tg[1], ('vec', v[1][:-1])); return [(st, ('adt', O, 1, (v[1][-1],)))]
def _mem_replace(I, st, fr, c, args, atys, dty, depth, bb):
    tg = I.target(args[0]); v = I.deref(st, args[0], 1) if args[0][0] == 'ref' else I.read_path(st, *tg)
    new = args[1] if len(args) > 1 else tok('default()')
    if c['name'] == 'take':
        t = I.F.ty(dty)
        new = ('adt', 'core::option::Option', 0, ()) if t.get('adt') == 'core::option::Option' else tok('default()')
    I.write_path(st, tg[0], tg[1], new); return [(st, v)]
def _mem_swap(I, st, fr, c, args, atys, dty, depth, bb):
    a, b = I.target(args[0]), I.target(args[1]); va, vb = I.read_path(st, *a), I.read_path(st, *b)
    I.write_path(st, a[0], a[1], vb); I.write_path(st, b[0], b[1], va); return [(st, UNIT)]
def _collect(I, st, fr, c, args, atys, dty, depth, bb):
    T = I.F.ty(dty)
    it = I.deref(st, args[0])
    nk = c.get('next'); wraps = []
    while T.get('k') == 'adt' and T['adt'].split('::')[-1] in ('Result', 'Option'):
        wraps.append(T['adt'].split('::')[-1]); T = I.F.ty(T['args'][0])
    if T.get('adt') == 'alloc::string::String' and not wraps and written_out(it):
        import domain
        I.fid += 1; root = (I.fid, 'it'); st.mem[root] = it
        return [(s, domain.cat([p for x in v[1] for p in domain.parts(I, s, domain._chr(I, s, x))]) if v[0] == 'vec' else v) for s, v in drain(I, st, fr, root, nk, [], c.get('next_ty', dty), dty, depth, bb, most=64)]
    if not (T.get('k') == 'adt' and T['adt'].split('::')[-1] in ('Vec', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet') or T.get('adt') == 'serde_json::map::Map'): return None
    if nk is None and it[0] != 'iter': return None
    I.fid += 1; root = (I.fid, 'it'); st.mem[root] = it
    return drain(I, st, fr, root, nk, wraps, c.get('next_ty', dty), dty, depth, bb)
O = 'core::option::Option'; R = 'core::result::Result'
def fork2(s, v, names):
    """Split a value of Option/Result type: [(state, variant name, payload)]."""
    v0 = v
    if v[0] == 'adt': return [(s, names[v[2]] if v[1] in (O, R) else None, v[3][0] if v[3] else None)]
    if v[0] not in ('tok', 'rec'): return []
    f = s.facts.get(v[1]); out = []
    for n in names:
        if f in (None, n):
            s2 = s.copy() if f is None else s
            s2.facts[v[1]] = n
            out.append((s2, n, tok(f"{v[1]}.{n}.0") if n != 'None' else None))
    return out
def written_out(it):
    """An iterator over a sequence written out in the program."""
    if not isinstance(it, tuple): return False
    if it[0] == 'iter' and len(it) > 1 and isinstance(it[1], tuple): return True
    return any(written_out(x) for x in it if isinstance(x, tuple))
def drain(I, st, fr, root, nk, wraps, nty, dty, depth, bb, most=0):
    """Run an iterator stored at `root` to its end: (state, collected value) per path; `wraps` are the Result/Option layers around the Vec."""
    if isinstance(wraps, str): wraps = []
    out = []; work = [(st, ())]
    def mk(i, payload):
        """Rewrap a short-circuited value in the outer layers."""
        for w in reversed(wraps[:i]): payload = ('adt', R, 0, (payload,)) if w == 'Result' else ('adt', O, 1, (payload,))
        return payload
    while work:
        s, items = work.pop()
        if len(items) > (most or I.maxlen): s.cut = 'collect'; I.cuts += 1; out.append((s, TOP)); continue
        nc = nk if nk else {'u': 'core::iter::traits::iterator::Iterator::next', 'path': 'next', 'name': 'next', 'crate': 'core', 'key': None}
        for s2, v in I.call_fn(s, fr, nc, [('ref', root, ())], [None], nty if nty is not None else dty, depth + 1, bb):
            for s4, nm, el in fork2(s2, v, ('None', 'Some')):
                if nm == 'None': out.append((s4, mk(len(wraps), ('vec', items)))); continue
                cur = [(s4, el)]
                for i, w in enumerate(wraps):
                    nxt = []
                    for s5, e in cur:
                        for s6, n2, p in fork2(s5, I.deref(s5, e), ('Ok', 'Err') if w == 'Result' else ('None', 'Some')):
                            if n2 in ('Ok', 'Some'): nxt.append((s6, p))
                            else: out.append((s6, mk(i, ('adt', R, 1, (p,)) if n2 == 'Err' else ('adt', O, 0, ()))))
                    cur = nxt
                for s5, e in cur: work.append((s5, items + (e,)))
    return out
def _opt_as_ref(I, st, fr, c, args, atys, dty, depth, bb):
    v = I.deref(st, args[0]); tg = I.target(args[0])
    if v[0] == 'tok': return [(st, v)]
    if v[0] != 'adt' or tg is None: return [(st, args[0])]
    if not v[3]: return [(st, v)]
    ty = I.F.ty(atys[0]).get('to') if atys[0] is not None else -1
    return [(st, ('adt', v[1], v[2], (('ref', tg[0], tg[1] + (('f', 0, ty, v[2]),)),)))]
def _unreach(I, st, fr, c, args, atys, dty, depth, bb): return []
def _default(I, st, fr, c, args, atys, dty, depth, bb):
    T = I.F.ty(dty)
    if T.get('adt') == 'core::option::Option': return [(st, ('adt', T['adt'], 0, ()))]
    if T['s'] == 'bool': return [(st, const(False))]
    return None

def _conc(I, st, a):
    """A concrete sequence behind an iterator argument: (target, items left) or None."""
    tg = I.target(a); v = I.deref(st, a, 8)
    if v[0] == 'iter' and isinstance(v[1], tuple): return tg, v[1][v[2]:]
    return None
def _some(x): return ('adt', O, 1, (x,))
NONE = ('adt', O, 0, ())
def _nth(I, st, fr, c, args, atys, dty, depth, bb):
    n = I.deref(st, args[1]); cs = _conc(I, st, args[0])
    if cs:
        i = _idx(n)
        if i is None: return None
        tg, items = cs
        if tg: I.write_path(st, tg[0], tg[1], ('iter', items[i + 1:], 0))
        return [(st, _some(items[i]) if i < len(items) else NONE)]
    v = I.deref(st, args[0], 8)
    if v[0] == 'tok' or v[0] == 'iter' and v[2] == 0:
        if _idx(n) == 0: return None
        return [(st, tok(I.nm(f"nth({v[1]},{I.render(st, n)})")))]
    return None
def _next_back(I, st, fr, c, args, atys, dty, depth, bb):
    cs = _conc(I, st, args[0])
    if not cs or not cs[0]: return None
    tg, items = cs
    if not items: return [(st, NONE)]
    I.write_path(st, tg[0], tg[1], ('iter', items[:-1], 0)); return [(st, _some(items[-1]))]
def _rev(I, st, fr, c, args, atys, dty, depth, bb):
    cs = _conc(I, st, args[0])
    return [(st, ('iter', tuple(reversed(cs[1])), 0))] if cs else None
def _count(I, st, fr, c, args, atys, dty, depth, bb):
    cs = _conc(I, st, args[0])
    return [(st, const(len(cs[1])))] if cs else None
def bounds(I, st, v, n):
    """(lo, hi) of a concrete range over n elements, or None."""
    v = I.deref(st, v)
    def bound(b, end):
        b = I.deref(st, b)
        if b[0] != 'adt': return None
        nm = I.F.adts[b[1]]['variants'][b[2]]['n']
        if nm == 'Unbounded': return n if end else 0
        i = _idx(I.deref(st, b[3][0]))
        return None if i is None else i + (1 if (nm == 'Excluded') != end else 0)
    if v[0] == 'tuple' and len(v[1]) == 2: lo, hi = bound(v[1][0], False), bound(v[1][1], True)
    elif v[0] == 'adt':
        k = v[1].split('::')[-1]; f = [_idx(I.deref(st, x)) for x in v[3]]
        if k == 'Range': lo, hi = f
        elif k == 'RangeFrom': lo, hi = f[0], n
        elif k == 'RangeTo': lo, hi = 0, f[0]
        elif k == 'RangeFull': lo, hi = 0, n
        else: return None
    else: return None
    return None if lo is None or hi is None else (lo, hi)
def _vec_drain(I, st, fr, c, args, atys, dty, depth, bb):
    tg, v = _vec_of(I, st, args[0])
    if v[0] != 'vec' or tg is None: return None
    b = bounds(I, st, args[1], len(v[1]))
    if b is None: return None
    if not b[0] <= b[1] <= len(v[1]): return []
    I.write_path(st, tg[0], tg[1], ('vec', v[1][:b[0]] + v[1][b[1]:])); return [(st, ('iter', v[1][b[0]:b[1]], 0))]
def _vec_truncate(I, st, fr, c, args, atys, dty, depth, bb):
    tg, v = _vec_of(I, st, args[0]); i = _idx(I.deref(st, args[1]))
    if v[0] != 'vec' or i is None: return None
    I.write_path(st, tg[0], tg[1], ('vec', v[1][:i])); return [(st, UNIT)]
def _slice_idx(I, st, fr, c, args, atys, dty, depth, bb):
    tg, v = _vec_of(I, st, args[0])
    if v[0] not in ('vec', 'array'): return None
    b = bounds(I, st, args[1], len(v[1]))
    if b is None: return _vec_get(I, st, fr, c, args, atys, dty, depth, bb) if c['name'].startswith('get') else _vec_index(I, st, fr, c, args, atys, dty, depth, bb)
    ok = b[0] <= b[1] <= len(v[1]); x = ('vec', v[1][b[0]:b[1]])
    if c['name'].startswith('get'): return [(st, _some(x) if ok else NONE)]
    return [(st, x)] if ok else []
def _ord(op):
    def m(I, st, fr, c, args, atys, dty, depth, bb):
        a, b = I.deref(st, args[0], 8), I.deref(st, args[1], 8)
        if not all(x[0] in ('const', 'tok') for x in (a, b)): return None
        return [(st, I.binop(st, op, a, b))]
    return m
BUILTIN = {
    'core::cmp::PartialOrd::lt': _ord('Lt'), 'core::cmp::PartialOrd::le': _ord('Le'), 'core::cmp::PartialOrd::gt': _ord('Gt'), 'core::cmp::PartialOrd::ge': _ord('Ge'),
    'core::iter::traits::iterator::Iterator::next': lambda I, st, fr, c, *a: (_range_next(I, st, fr, c, *a) if I.deref(st, a[0][0])[0] == 'adt' and I.deref(st, a[0][0])[1].endswith('::Range') else _iter_next(I, st, fr, c, *a) if (I.deref(st, a[0][0])[0] in ('iter',) or (I.deref(st, a[0][0])[0] == 'tok' and c.get('key') not in I.F.B)) else None),
    'core::iter::traits::collect::IntoIterator::into_iter': _into_iter,
    'core::slice::<impl [T]>::iter': _mk_iter, 'core::slice::<impl [T]>::iter_mut': _mk_iter,
    'std::collections::hash::map::HashMap::<K, V, S, A>::iter': _mk_iter, 'std::collections::hash::map::HashMap::<K, V, S>::iter': _mk_iter,
    'std::collections::hash::set::HashSet::<T, S, A>::iter': _mk_iter, 'std::collections::hash::set::HashSet::<T, S>::iter': _mk_iter,
    'alloc::vec::Vec::<T>::new': _vec_new, 'alloc::vec::Vec::<T>::with_capacity': _vec_new, 'alloc::vec::Vec::<T, A>::push': _vec_push,
    'core::slice::<impl [T]>::get': _slice_idx, 'core::slice::<impl [T]>::get_mut': _slice_idx, 'alloc::vec::Vec::<T, A>::drain': _vec_drain, 'alloc::vec::Vec::<T, A>::truncate': _vec_truncate,
    'core::iter::traits::iterator::Iterator::nth': _nth, 'core::iter::traits::double_ended::DoubleEndedIterator::next_back': _next_back, 'core::iter::traits::iterator::Iterator::rev': _rev,
    'core::iter::traits::iterator::Iterator::count': _count, 'core::iter::traits::exact_size::ExactSizeIterator::len': _count, 'alloc::vec::Vec::<T, A>::insert': _vec_insert, 'alloc::vec::Vec::<T, A>::remove': _vec_remove,
    'alloc::vec::Vec::<T, A>::pop': _vec_pop, 'core::ops::index::Index::index': _slice_idx, 'core::ops::index::IndexMut::index_mut': _vec_index,
    'alloc::vec::Vec::<T, A>::swap_remove': _vec_swap_remove, 'core::slice::<impl [T]>::swap': _vec_swap, 'core::slice::<impl [T]>::reverse': _vec_reverse, 'alloc::vec::Vec::<T, A>::append': _vec_append, 'alloc::vec::Vec::<T, A>::split_off': _vec_split_off,
    'core::mem::replace': _mem_replace, 'core::mem::take': _mem_replace, 'core::mem::swap': _mem_swap, 'core::option::Option::<T>::take': _mem_replace,
    'core::iter::traits::iterator::Iterator::collect': _collect,
    'core::option::Option::<T>::as_ref': _opt_as_ref, 'core::option::Option::<T>::as_deref': _opt_as_ref,
    'core::option::Option::<T>::as_mut': _opt_as_ref, 'core::option::Option::<T>::as_deref_mut': _opt_as_ref,
    'core::result::Result::<T, E>::as_ref': _opt_as_ref, 'core::result::Result::<T, E>::as_mut': _opt_as_ref,
    'core::hint::unreachable_unchecked': _unreach, 'core::panicking::panic': _unreach, 'core::panicking::panic_fmt': _unreach,
    'core::default::Default::default': _default,
}
