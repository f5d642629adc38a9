"""How configuration types are written as text and read back, extracted from the derived (and hand-written) serde implementations by abstract interpretation.

writer(type): for each variant, the names written, the field written under each, through which converter, and under which condition a field is left out.
reader(type): for each name, the variant or field it is read into, through which converter, and what a field is when its name is absent."""
import re
from interp import Interp, tok, const, UNIT, NONE, _some
R = 'core::result::Result'
def ok(v): return ('adt', R, 0, (v,))
def bad(v): return ('adt', R, 1, (v,))
W = ('W', 0)
def log(I, st, *xs):
    cur = st.mem.get(W, ('vec', ())); st.mem[W] = ('vec', cur[1] + (('tuple', tuple(xs)),))
def txt(I, st, v):
    v = I.deref(st, v, 8); return v[1] if v[0] == 'const' else I.render(st, v)
def tail(b): return re.sub(r'(~\d+)+$', '', b['path'])
def norm(p): return re.sub(r'(de)?serialize_?', '', re.sub(r'::(de|ser)::(?=<impl)', '::', p)).rstrip(':')
class Serde:
    def __init__(self, F):
        self.F = F; self.by = {}
        for b in F.local:
            if b.get('impl_self') is not None: self.by.setdefault((b['impl_self'], b['name']), b)
        self.adt_of = lambda t: F.ty(t).get('adt') if t is not None else None
        self.meth = {}
        for b in F.local:
            a = self.adt_of(b.get('impl_self'))
            if a: self.meth.setdefault((a, b['name'], (b.get('impl_trait') or '').split('::')[-1]), b)
        self.fieldv = {}
        for b in F.local:
            if b['name'] == 'visit_str' and '__FieldVisitor' in b['path']:
                m = re.search(r'Result<(.*__Field[^,]*),', F.tys(b['locals'][0]) if not isinstance(b['locals'][0], dict) else F.tys(b['locals'][0].get('t', 0)))
                T = F.ty(b['locals'][0] if not isinstance(b['locals'][0], dict) else b['locals'][0]['t'])
                if T.get('args'): self.fieldv[self.adt_of(T['args'][0])] = b
    def interp(self, models, skip=()):
        I = Interp(self.F, events=lambda c: None, opaque=lambda c: False, models=models, maxlen=3, budget=200000, loopcap=80); I.skips = set(skip); I.asked = []; I.convs = {}
        return I
    # -- converters
    def conv(self, t, name):
        """The function a wrapper type reads or writes its value with."""
        b = self.meth.get((self.adt_of(t), name, 'Serialize' if name == 'serialize' else 'Deserialize'))
        if not b: return None
        for c, tt, i, bb in self.F.callees(b):
            if re.match(r'_?(de)?serialize', c['name']) or 'serialize' in c['path']:
                s = self.F.tys(c['impl_self']) if c.get('impl_self') is not None else ''
                ad = [self.F.tys(x) for x in c.get('ta', [])[:1] if isinstance(x, int)]
                return norm(c['path']) + (f"[{ad[0]}]" if 'As<T>' in c['path'] and ad else '')
        return '?'
    # -- writing
    def write(self, body, variant=None, skip=(), self_name='self'):
        """[(records)] of the single successful path."""
        S = self
        def start(I, st, fr, c, args, atys, dty, depth, bb):
            log(I, st, const('struct')); return [(st, ok(tok('S')))]
        def field(I, st, fr, c, args, atys, dty, depth, bb):
            k = txt(I, st, args[1]); v = args[2] if len(args) > 2 else None
            log(I, st, const('field'), const(k), *val(I, st, v, atys[2] if len(atys) > 2 else None)); return [(st, ok(UNIT))]
        def val(I, st, v, t):
            d = I.deref(st, v, 8); cv = None
            if d[0] == 'adt' and '__SerializeWith' in d[1]:
                cv = S.conv(self.with_ty(d[1]), 'serialize'); x = d[3][0]
                x = I.deref(st, x, 8)
                if x[0] == 'tuple': x = x[1][0]
                return const(I.render(st, I.deref(st, x, 8))), const(cv)
            if d[0] == 'adt' and '__EnumFlatten' in d[1]:
                b = S.meth.get((d[1], 'serialize', 'Serialize')); st.mem[('EF', 0)] = v
                return const('flatten:' + d[1]), d
            return const(I.render(st, d)), const(None)
        def skipped(I, st, fr, c, args, atys, dty, depth, bb): return [(st, ok(UNIT))]
        def end(I, st, fr, c, args, atys, dty, depth, bb): return [(st, ok(tok('END')))]
        def unit(I, st, fr, c, args, atys, dty, depth, bb): log(I, st, const('variant'), const(txt(I, st, args[3])), const('unit')); return [(st, ok(tok('END')))]
        def newtype(I, st, fr, c, args, atys, dty, depth, bb):
            log(I, st, const('variant'), const(txt(I, st, args[3])), const('newtype'), *val(I, st, args[4], atys[4])); return [(st, ok(tok('END')))]
        def svariant(I, st, fr, c, args, atys, dty, depth, bb): log(I, st, const('variant'), const(txt(I, st, args[3])), const('struct')); return [(st, ok(tok('S')))]
        def plain(kind):
            def m(I, st, fr, c, args, atys, dty, depth, bb): log(I, st, const('plain'), const(kind), const(txt(I, st, args[-1]) if len(args) > 1 else '')); return [(st, ok(tok('END')))]
            return m
        def nested(I, st, fr, c, args, atys, dty, depth, bb):
            a1 = I.deref(st, args[1], 8); log(I, st, const('flat' if 'FlatMap' in str(a1) else 'as'), *val(I, st, args[0], None)); return [(st, ok(UNIT))]
        def remote(I, st, fr, c, args, atys, dty, depth, bb):
            if len(args) != 2 or c['name'] != 'serialize' or c.get('key') == body['key']: return None
            a1 = I.deref(st, args[1], 8)
            if 'FlatMap' not in str(a1): return None
            log(I, st, const('flat'), const(I.render(st, I.deref(st, args[0], 8))), const(norm(c['path']))); return [(st, ok(UNIT))]
        Z = 'serde::ser::'
        models = Preds({Z + 'Serializer::serialize_struct': start, Z + 'Serializer::serialize_map': start, Z + 'Serializer::serialize_struct_variant': svariant, Z + 'Serializer::serialize_unit_variant': unit,
                  Z + 'Serializer::serialize_newtype_variant': newtype, Z + 'SerializeStruct::serialize_field': field, Z + 'SerializeStructVariant::serialize_field': field, Z + 'SerializeMap::serialize_entry': field,
                  Z + 'SerializeStruct::skip_field': skipped, Z + 'SerializeStructVariant::skip_field': skipped, Z + 'SerializeStruct::end': end, Z + 'SerializeStructVariant::end': end, Z + 'SerializeMap::end': end,
                  Z + 'Serializer::serialize_newtype_struct': lambda I, st, fr, c, args, atys, dty, depth, bb: (log(I, st, const('as'), *val(I, st, args[2], atys[2])), [(st, ok(tok('END')))])[1],
                  Z + 'Serializer::serialize_str': plain('str'), Z + 'Serializer::serialize_none': plain('none'), Z + 'Serializer::serialize_unit': plain('unit'), Z + 'Serialize::serialize': nested, 'serialize': remote,
                  Z + 'Serializer::serialize_bool': plain('bool'), 'serde::__private::ser::constrain': lambda I, st, fr, c, args, *a: [(st, args[0])]})
        I = self.interp(models, skip)
        facts = {self_name: variant} if variant else {}
        res = I.run(body, [tok(self_name), tok('ser')], facts=facts)
        good = [(s, v) for s, v in res if not s.cut and not I.render(s, v).startswith('Err')]
        out = []
        for s, v in good:
            recs = []
            for r in s.mem.get(W, ('vec', ()))[1]:
                xs = [x[1] if x[0] == 'const' else x for x in r[1]]
                if any(isinstance(x, str) and x.startswith('flatten:') for x in xs):
                    recs.append(xs[:3] + ['flatten']); ef = xs[-1]
                    b = self.meth.get((ef[1], 'serialize', 'Serialize'))
                    recs += [['?']] if not b else self.flat(b, ef, I, s, skip)
                else: recs.append(xs)
            out.append((recs, I.asked))
        return out
    def flat(self, b, ef, I, s, skip):
        """The fields an __EnumFlatten helper writes."""
        names = [I.render(s, I.deref(s, x, 8)) for x in (ef[3] if ef[3] else ())]
        if ef[3] and I.deref(s, ef[3][0], 8)[0] == 'tuple': names = [I.render(s, I.deref(s, x, 8)) for x in I.deref(s, ef[3][0], 8)[1]]
        out = self.write(b, None, [k for k in self.renamed(skip, names)], 'self')
        if len(out) != 1: return [['?']]
        recs, asked = out[0]
        def sub(x):
            if not isinstance(x, str): return x
            for i, n in enumerate(names):
                x = re.sub(r'^self\.(data\.)?%d\b' % i, lambda m: n, x)
            return x
        for p, a in asked: I.asked.append((p, sub(a)))
        return [[sub(x) for x in r] for r in recs if r[0] != 'struct']
    def renamed(self, skip, names):
        for p, a in skip:
            for i, n in enumerate(names):
                if a == n: yield (p, f"self.{i}"); yield (p, f"self.data.{i}")
    def with_ty(self, adt):
        for i, t in enumerate(self.F.T):
            if t.get('adt') == adt: return i
    # -- reading
    def field(self, adt, name):
        b = self.fieldv.get(adt)
        if not b: return None
        I = self.interp({}); res = [v for s, v in I.run(b, [tok('self'), const(name)], facts={})]
        res = [v[3][0] for v in res if v[0] == 'adt' and v[1] == R and v[2] == 0]
        return res[0] if len(res) == 1 else None
    def read(self, body, keys, variant=None):
        """The results of a visitor on a map with these names, in order."""
        S = self
        def fld(I, dty, name):
            T = self.F.ty(dty); t = T['args'][0]
            while self.adt_of(t) == 'core::option::Option': t = self.F.ty(t)['args'][0]
            if self.F.ty(t).get('k') == 'tuple': t = self.F.ty(t)['args'][0]
            return S.field(self.adt_of(t), name)
        def next_key(I, st, fr, c, args, atys, dty, depth, bb):
            n = st.mem.get(('K', 0), const(0))[1]; st.mem[('K', 0)] = const(n + 1)
            if n >= len(keys): return [(st, ok(NONE))]
            f = fld(I, dty, keys[n])
            if f is None: return [(st, bad(tok(f"unknown({keys[n]})")))]
            return [(st, ok(_some(f)))]
        def wrap(I, st, c, name):
            t = c['ta'][-1]
            if isinstance(t, int) and '__DeserializeWith' in str(self.adt_of(t)): I.convs[name] = S.conv(t, 'deserialize'); return tok(name)
            return tok(name)
        def next_value(I, st, fr, c, args, atys, dty, depth, bb):
            n = st.mem.get(('K', 0), const(0))[1] - 1
            return [(st, ok(wrap(I, st, c, f"in[{keys[n]}]" if 0 <= n < len(keys) else 'in[?]')))]
        def missing(I, st, fr, c, args, atys, dty, depth, bb):
            T = self.F.ty(self.F.ty(dty)['args'][0])
            return [(st, ok(NONE) if T.get('adt') == 'core::option::Option' else bad(tok('required')))]
        def default(I, st, fr, c, args, atys, dty, depth, bb):
            if len(args): return None
            return [(st, default_of(self.F, dty))]
        def nested(I, st, fr, c, args, atys, dty, depth, bb):
            a = I.deref(st, args[0], 8)
            return [(st, ok(tok('in[flat]' if 'FlatMap' in str(a) else 'in[as]')))]
        def remote(I, st, fr, c, args, atys, dty, depth, bb):
            if len(args) != 1 or 'FlatMap' not in str(I.deref(st, args[0], 8)): return None
            I.convs['in[flat]'] = norm(c['path']); return [(st, ok(tok('in[flat]')))]
        def which(I, st, fr, c, args, atys, dty, depth, bb):
            f = fld(I, dty, variant)
            if f is None: return [(st, bad(tok(f"unknown({variant})")))]
            return [(st, ok(('tuple', (f, tok('va')))))]
        def unitv(I, st, fr, c, args, atys, dty, depth, bb): return [(st, ok(UNIT))]
        def newtypev(I, st, fr, c, args, atys, dty, depth, bb): return [(st, ok(wrap(I, st, c, 'in[0]')))]
        def structv(I, st, fr, c, args, atys, dty, depth, bb):
            b = S.meth.get((self.adt_of(c['ta'][-1]), 'visit_map', 'Visitor'))
            return S_call(I, st, fr, b, [args[-1], tok('map')], depth) if b else None
        def S_call(I, st, fr, b, args, depth): return I.call_body(b, args, st, depth + 1, fr['stack'])
        D = 'serde::de::'
        models = {D + 'MapAccess::next_key': next_key, D + 'MapAccess::next_value': next_value, 'serde::__private::de::missing_field': missing, 'core::default::Default::default': default, D + 'Deserialize::deserialize': nested, 'deserialize': remote,
                  D + 'EnumAccess::variant': which, D + 'VariantAccess::unit_variant': unitv, D + 'VariantAccess::newtype_variant': newtypev, D + 'VariantAccess::struct_variant': structv, D + 'VariantAccess::newtype_variant_seed': structv}
        I = self.interp(models)
        res = I.run(body, [tok('visitor'), tok('map')], facts={})
        return [(I, s, v) for s, v in res if not s.cut]
class Preds(dict):
    """Models, and for every other call that asks one yes/no question about one value: yes if it is in the skip list, else no."""
    def get(self, k, d=None):
        if k in self: return self[k]
        def m(I, st, fr, c, args, atys, dty, depth, bb):
            if len(args) != 1 or dty is None or I.F.tys(dty) != 'bool': return None
            a = I.render(st, I.deref(st, args[0], 8)); p = c['path']
            if not re.match(r'\w[\w.]*$', a): return None
            p = c.get('key') or p
            if (p, a) not in I.asked: I.asked.append((p, a))
            return [(st, const((p, a) in I.skips))]
        return m

# ---------------------------------------------------------------- the comparison
def default_of(F, t):
    s = F.tys(t)
    if F.ty(t).get('k') == 'tuple': return ('tuple', tuple(default_of(F, x) for x in F.ty(t)['args']))
    if F.ty(t).get('adt') == 'core::option::Option': return NONE
    if s == 'bool': return const(False)
    if re.fullmatch(r'[iu](\d+|size)', s): return const(0)
    return tok(f"DEFAULT<{s}>")
def sole(S, key):
    """The one value a yes/no question about a value answers yes to, as text; None where there is no such value or it cannot be told."""
    b = S.F.B.get(key); std = b['path'] if b else key
    if not b or re.match(r'(core|alloc|std|http)::', std): return 'EMPTY' if re.search(r'(Vec|HashMap|HashSet|BTreeMap|BTreeSet|String|str|HeaderMap)\b[^|]*::is_empty\b', std) else 'None' if re.search(r'Option\b[^|]*::is_none\b', std) else None
    def default(I, st, fr, c, args, atys, dty, depth, bb): return None if len(args) else [(st, default_of(S.F, dty))]
    I = S.interp({'core::default::Default::default': default}); yes = []
    for st, v in I.run(b, [tok('v')], facts={}):
        r = I.render(st, v)
        if r == 'false': continue
        if r == 'v': yes.append('true'); continue
        if r == '!v': yes.append('false'); continue
        m = re.fullmatch(r'eq\((.*),v\)|eq\(v,(.*)\)', r)
        if m: yes.append(m.group(1) or m.group(2)); continue
        if r != 'true': return None
        yes.append(pinned(S, I, st, 'v', b['locals'][1] if not isinstance(b['locals'][1], dict) else b['locals'][1]['t']))
    return yes[0] if len(set(yes)) == 1 else None
def pinned(S, I, st, name, t):
    """The value the decisions taken so far leave for a value, as text."""
    F = S.F; t = F.peel(t); T = F.ty(t); f = st.facts.get(name)
    if f is None: return None
    if F.tys(t) == 'bool' or T.get('k') != 'adt': return str(f).lower()
    adt = F.adts.get(T['adt']); vs = adt['variants'] if adt else [{'n': 'None', 'f': []}] if f == 'None' else []
    v = next((v for v in vs if v['n'] == f), None)
    if v is None: return None
    head = f if T['adt'] == 'core::option::Option' else T['adt'].split('::')[-1] + '::' + f
    if not v['f']: return head
    xs = [pinned(S, I, st, f"{name}.{f}.{x['n']}", x['t']) for x in v['f']]
    return None if None in xs else f"{head}({','.join(xs)})"
def pair(F):
    """[(type, its writer, {visit method: reader})] for every type of this crate that has a generated reader."""
    ws, rs = {}, {}
    for b in F.local:
        m = re.search(r"_::<impl (?:serde::(?:ser::)?Serialize for )?([^>]*(?:<T>|<'a>)?)>::serialize(~\d+)*$", b['path'])
        if m and b['name'] == 'serialize': ws.setdefault(m.group(1), []).append(b)
        m = re.search(r"_::<impl (?:serde::(?:de::)?Deserialize<'de> for )?([^>]*(?:<T>|<'a>)?)>::deserialize::(?:\{closure#\d+\}::)?__Visitor\S* as serde::de::Visitor<'de>>::(visit_\w+)(~\d+)*$", b['path'])
        if m: rs.setdefault(m.group(1), {}).setdefault(m.group(2), b)
    return ws, rs
def compare(S):
    """Yields (type or variant, what is wrong or None)."""
    F = S.F; ws, rs = pair(F)
    for T in sorted(rs):
        adt = next((a for p, a in F.adts.items() if p == re.sub(r'<.*', '', T)), None)
        w = ws.get(T, [])
        rem = [b for b in w if f"_::<impl {T}>::serialize" in b['path']]
        w = (rem or w)[:1] if len({b['path'] for b in rem or w}) == 1 else w
        if len(w) != 1: yield T, f"{len(w)} generated writers"; continue
        if not adt:
            sf = F.ty(w[0]['locals'][1] if not isinstance(w[0]['locals'][1], dict) else w[0]['locals'][1]['t']); a = S.adt_of(sf.get('to')); adt = F.adts.get(a)
        if 'visit_enum' in rs[T]:
            for v in adt['variants']: yield from one_variant(S, T, adt, w[0], rs[T]['visit_enum'], rs[T], v)
        else: yield from one_variant(S, T, adt, w[0], rs[T].get('visit_newtype_struct') or rs[T]['visit_map'], rs[T], None)
def one_variant(S, T, adt, w, r, rt, v):
    F = S.F; nm = T + ('::' + v['n'] if v else '')
    if v and v['n'] == 'Custom': return
    out = S.write(w, v['n'] if v else None)
    if len(out) != 1: yield nm, f"{len(out)} ways of writing it"; return
    recs, asked = out[0]; asked = list(asked)
    pre = 'self.' + (v['n'] + '.' if v else '')
    vn = [x[1] for x in recs if x[0] == 'variant']
    put = {}                              # where the reader will see it -> (field, converter)
    for x in recs:
        if x[0] == 'field': put[f"in[{x[1]}]"] = (x[2], x[3]); dup = False
        elif x[0] == 'variant' and x[2] == 'newtype' and len(x) > 4: put['in[0]'] = (x[3], x[4])
        elif x[0] == 'flat': put['in[flat]'] = (x[1], x[2])
        elif x[0] == 'as': put['in[as]'] = (x[1], x[2])
        elif x[0] not in ('struct', 'variant'): yield nm, f"cannot tell how it is written: {x}"; return
    if v and not vn and recs[:1] == [['struct']] and 'visit_map' in rt: r = rt['visit_map']      # an untagged variant
    elif v and len(vn) != 1: yield nm, f"not written as a named variant: {recs}"; return
    keys = [x[1] for x in recs if x[0] == 'field']
    if len(set(keys)) != len(keys): yield nm, f"two fields are written under one name: {keys}"; return
    fields = [f['n'] for f in (v or adt['variants'][0])['f']]
    missing = [f for f in fields if not any(p == pre + f for p, _ in put.values())]
    if missing: yield nm, f"never written: {missing} of {recs}"; return
    def outcome(ks):
        res = S.read(r, ks, vn[0] if vn else None)
        if not res: return None, None, None
        outs = []
        for I, s, x in res:
            x = I.deref(s, x, 8)
            if x[0] == 'adt' and x[1] == R and x[2] == 0: outs.append((I, s, I.deref(s, x[3][0], 8)))
            else: outs.append((I, s, None))
        return outs
    def value_ok(name, got, I):
        pl, cv = put[name]
        if cv is None: return got in (name, name + '.value') and name not in I.convs
        if got not in (name, name + '.value', name + '.0', name + '.value.0'): return False
        return I.convs.get(name) == cv
    for gone in [None] + [k for k in keys if any(a == put[f"in[{k}]"][0] for p, a in asked)]:
        ks = [k for k in keys if k != gone]
        outs = outcome(ks)
        if not outs or len(outs) != 1 or outs[0][2] is None:
            yield nm, f"written with the names {ks} it is not read back ({[I.render(s, x) if x else 'Err' for I, s, x in outs or []]})"; return
        I, s, x = outs[0]
        if x[0] != 'adt' or (v and adt['variants'][x[2]]['n'] != v['n']): yield nm, f"read back as {I.render(s, x)}"; return
        got = {f: I.render(s, I.deref(s, y, 8)) for f, y in zip(fields, x[3] or ())}
        if len(got) != len(fields): yield nm, f"read back as {I.render(s, x)}"; return
        for name, (pl, cv) in put.items():
            f = pl[len(pre):]
            if name == f"in[{gone}]":
                for p in [p for p, a in asked if a == pl]:
                    k = sole(S, p); q = F.B[p]['path'] if p in F.B else p
                    if k is None: yield nm, f"field `{f}` is left out for more than one value, or on a condition this check cannot tell apart: {q}"
                    elif k == 'EMPTY' and plain(S, got[f]) == '~': pass
                    elif k != got[f]: yield nm, f"field `{f}` is left out when it is {k}, but then read as {got[f]}"
            elif not value_ok(name, got[f], I): yield nm, f"field `{f}` is written as {name} through {cv}, but read as {got[f]} through {I.convs.get(name)}"
    yield nm, None

# the default of a request is to nothing, but a request left without a URL goes to the task's own
DECLARED = {('left out', 'glue::http::RequestConfig')}
# ---------------------------------------------------------------- the bare-string forms
def magic(S):
    """The types that are also read from a bare string: those whose generated code is not their trait implementation."""
    out = []
    for b in S.F.local:
        m = re.search(r"_::<impl ([\w:]+)>::deserialize$", b['path'])
        if m and S.meth.get((m.group(1), 'deserialize', 'Deserialize')) and m.group(1) not in out: out.append(m.group(1))
    return sorted(out)
def _default(S):
    def default(I, st, fr, c, args, atys, dty, depth, bb): return None if len(args) else [(st, default_of(S.F, dty))]
    return {'core::default::Default::default': default}
def results(S, b, args, models=None):
    """[(facts, rendered result)] of a function."""
    I = S.interp({**_default(S), **(models or {})})
    return [(st.facts, I.render(st, v), I, st, v) for st, v in I.run(b, args, facts={})]
EMPTY = r"DEFAULT<(?:&?(?:alloc::vec::Vec|std::collections::hash::\w+::Hash(?:Map|Set)|alloc::collections::\w+|alloc::string::String|http::header::map::HeaderMap)\b(?:[^<>]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)*)>|(?:Vec|HashMap|HashSet|String|HeaderMap|BTreeMap|BTreeSet)::(?:new|default)\(\)|\[\]"
def plain(S, t):
    t = expand(S, t)
    t = re.sub(EMPTY, '~', t); t = re.sub(r'\bvec(?:~|\[\])', '~', t)
    return re.sub(r"(?<=[=(,])''(?=[,})])", '~', t) if t != "''" else '~'
def expand(S, text):
    """A default written as the fields it has."""
    def sub(m):
        T = m.group(1); b = S.meth.get((T, 'default', 'Default'))
        if not b: return m.group(0)
        rs = results(S, b, [])
        return rs[0][1] if len(rs) == 1 else m.group(0)
    for _ in range(3):
        new = re.sub(r'DEFAULT<([\w:]+)>', sub, text)
        new = project(new)
        if new == text: break
        text = new
    return text
def project(text):
    """`T{a=x,b=y}.b` is y."""
    pos = 0
    while True:
        m = re.compile(r'[\w:]+\{').search(text, pos)
        if not m: return text
        i = m.end(); d = 0; cuts = [i]
        while i < len(text):
            c = text[i]
            if c in '{([<': d += 1
            elif c in '})]>':
                if d == 0: break
                d -= 1
            elif c == ',' and d == 0: cuts.append(i + 1)
            i += 1
        n = re.match(r'\.(\w+)', text[i + 1:])
        if n and i < len(text):
            fs = dict(x.rstrip(',').split('=', 1) for x in (text[a:b] for a, b in zip(cuts, cuts[1:] + [i])) if '=' in x)
            if n.group(1) in fs: text = text[:m.start()] + fs[n.group(1)] + text[i + 1 + n.end():]; continue
        pos = m.end()
def fields_of(S, I, st, v, adt):
    v = I.deref(st, v, 8)
    if v[0] == 'adt' and v[1] == R: v = I.deref(st, v[3][0], 8)
    if v[0] != 'adt': return None
    return dict(zip([f['n'] for f in adt['variants'][v[2] or 0]['f']], [I.render(st, I.deref(st, x, 8)) for x in v[3] or ()]))
def absent(S, T):
    """The fields of a type read from an empty map, as text, or None if some field is required."""
    ws, rs = pair(S.F)
    if T not in rs or 'visit_map' not in rs[T] or 'visit_enum' in rs[T]: return None
    good = [(I, s, x) for I, s, x in S.read(rs[T]['visit_map'], []) if not I.render(s, x).startswith('Err')]
    if len(good) != 1: return None
    I, s, x = good[0]; adt = S.F.adts[T]
    got = fields_of(S, I, s, x, adt)
    for f in adt['variants'][0]['f']:
        if got and got.get(f['n'], '').startswith('in[flat]'):
            a = S.F.adt_of(f['t']); sub = absent(S, a) if a else None
            if sub is None: return None
            got[f['n']] = a.split('::')[-1] + '{' + ','.join(f"{k}={expand(S, v)}" for k, v in sorted(sub.items())) + '}'
    return got
def defaults(S):
    """A settings type read from an empty map is its default."""
    ws, rs = pair(S.F)
    for T in sorted(rs):
        adt = S.F.adts.get(T); b = S.meth.get((T, 'default', 'Default'))
        if not adt or not b: continue
        got = absent(S, T)
        if got is None: continue
        rr = results(S, b, [])
        if len(rr) != 1: yield T, None; continue
        want = fields_of(S, rr[0][2], rr[0][3], rr[0][4], adt)
        if want is None: yield T, None; continue
        diff = [k for k in got if expand(S, got[k]) != expand(S, want.get(k, '?')) and plain(S, got[k]) != plain(S, want.get(k, '?'))]
        yield T, f"left out, {', '.join(f'`{k}` is read as {got[k]} but its default is {want.get(k)}' for k in diff)}" if diff else None
def shorthand(S):
    """What a bare string stands for."""
    F = S.F; ws, rs = pair(F)
    for T in magic(S):
        adt = F.adts[T]; b = S.meth.get((T, 'from_str', 'FromStr'))
        if not b: yield T, 'cannot be made from a bare string'; continue
        # the trait implementations hand over to the generated code, and a string to from_str
        ser = [x for x in F.real if x['name'] == 'serialize' and (x.get('impl_trait') or '').split('::')[-1] == 'Serialize' and S.adt_of(x.get('impl_self')) == T]
        vis = [x for x in F.real if x['name'] in ('visit_str', 'visit_map') and '::V as ' in x['path'] and f" for {T}>" in x['path'] or x['name'] in ('visit_str', 'visit_map') and f"<impl serde::de::Deserialize<'de> for {T}>::deserialize::V" in x['path']]
        def derived(I, st, fr, c, args, atys, dty, depth, bb):
            return [(st, tok('DERIVED'))] if c['path'].endswith(f"_::<impl {T}>::{c['name']}") else None
        def fs(I, st, fr, c, args, atys, dty, depth, bb):
            return [(st, ok(tok('FROMSTR')))]
        mod = {'serialize': derived, 'deserialize': derived}
        unit = [v['n'] for v in adt['variants'] if not v['f']] if adt['kind'] == 'enum' else []
        names = {}                    # variants written as a bare word or as nothing -> what is written
        for v in ([x for x in adt['variants'] if x['n'] != 'Custom'] if adt['kind'] == 'enum' else [None]):
            out = []
            w = next((x for x in ws.get(T, []) if f"_::<impl {T}>::serialize" in x['path']), None)
            rs1 = S.write(ser[0], v['n'] if v else None) if ser else []
            rs2 = S.write(w, v['n'] if v else None) if w else []
            if len(rs1) != 1 or len(rs2) != 1: yield T, f"cannot tell how {v['n'] if v else 'it'} is written"; continue
            r1 = rs1[0][0]
            if r1 != rs2[0][0] and r1[:1] not in ([['plain', 'unit', '']], [['plain', 'none', '']]) and not (r1 and r1[0][0] == 'plain'):
                yield T, f"{v['n'] if v else 'it'} is not written by its generated code: {r1}"; continue
            if v and r1 and r1[0][:1] == ['variant'] and r1[0][2] == 'unit': names[v['n']] = ('str', r1[0][1])
            elif r1 and r1[0][0] == 'plain': names[v['n'] if v else ''] = (r1[0][1], r1[0][2] if len(r1[0]) > 2 else '')
        for v, (kind, text) in sorted(names.items()):
            if kind == 'str': got = {r for _, r, *_ in results(S, b, [const(text)])}
            else:
                x = next((x for x in F.real if x['name'] in ('visit_unit',) and f"{T}" in x['path'] and '::V as ' in x['path']), None)
                got = {r for _, r, *_ in results(S, x, [tok('self')])} if x else {'nothing'}
            want = f"Ok({T.split('::')[-1]}::{v})"
            yield f"{T}::{v}", None if got == {want} else f"written as {'the bare string ' + repr(text) if kind == 'str' else 'null'}, which is read back as {' or '.join(sorted(got))}"
        # bare strings that are not free text name the variant they stand for, with default settings
        if adt['kind'] == 'enum':
            for f, r, *_ in results(S, b, [tok('s')]):
                named = [m.group(1) for k, val in f.items() if val is True for m in [re.fullmatch(r"eq\('(.*)',s\)", k)] if m]
                if named and r.startswith('Ok('):
                    n = T.split('::')[-1] + '::'
                    ok_ = r == f"Ok({n}{named[0]})" or re.fullmatch(re.escape(f"Ok({n}{named[0]}(") + r'DEFAULT<[^()]*>\)\)', r) or plain(S, r) in [plain(S, f"Ok({n}{v['n']}({default_text(S, v)}))") for v in adt['variants'] if v['n'] == named[0] and v['f']] or any(v == r[3 + len(n):-1] and t[1] == named[0] for v, t in names.items())
                    yield f"{T}:{named[0]}", None if ok_ else f"the bare string {named[0]!r} stands for {r}"
            continue
        if T.endswith(('::GlobWrapper', '::TaskConfig')): continue
        # the other fields are as if they had been left out
        req = [k for k in keys_of(S, T, ws, rs) if any(not I.render(s, x).startswith('Err') for I, s, x in S.read(rs[T]['visit_map'], [k]))]
        if len(req) != 1: yield T, f"no single required field: {req}"; continue
        I, s, x = [y for y in S.read(rs[T]['visit_map'], req) if not y[0].render(y[1], y[2]).startswith('Err')][0]
        long = fields_of(S, I, s, x, adt)
        for f, r, I2, st2, v2 in results(S, b, [tok('s')]):
            if r.startswith('Err'): continue
            got = fields_of(S, I2, st2, v2, adt)
            for k in long:
                if long[k].startswith(f"in[{req[0]}]"):
                    if not re.search(r'\bs\b', got[k]): yield T, f"a bare string does not give its `{k}`: {got[k]}"
                    continue
                a, g = long[k], expand(S, got[k])
                if a.startswith('in[flat]'):
                    t = next(F.adt_of(x['t']) for x in adt['variants'][0]['f'] if x['n'] == k); sub = absent(S, t)
                    a = t.split('::')[-1] + '{' + ','.join(f"{q}={v}" for q, v in sorted((sub or {}).items())) + '}'
                if expand(S, a) != g and plain(S, a) != plain(S, g): yield T, f"given as a bare string its `{k}` is {g}, left out of a map it is {a}"
        yield T, None
def default_text(S, v): return ','.join(f"DEFAULT<{S.F.tys(f['t'])}>" for f in v['f'])
def keys_of(S, T, ws, rs):
    w = next(x for x in ws[T] if f"_::<impl {T}>::serialize" in x['path'] or len(ws[T]) == 1)
    return [r[1] for recs, a in S.write(w) for r in recs if r[0] == 'field']

def handover(S):
    """A type read from a bare string hands a string to from_str, and a map to its generated reader."""
    F = S.F
    for T in magic(S):
        vis = {b['name']: b for b in F.real if b['path'].startswith(f"<<{T} as serde::de::Deserialize<'de>>::deserialize::") and b['name'].startswith('visit_')}
        if 'visit_str' not in vis or 'visit_map' not in vis: yield T, f"is read by {sorted(vis)}: a bare string or a map is not read at all"; continue
        b = S.meth.get((T, 'from_str', 'FromStr'))
        want = {r for _, r, *_ in results(S, b, [tok('s')]) if r.startswith('Ok')} if b else set()
        got = {r for _, r, *_ in results(S, vis['visit_str'], [tok('self'), tok('s')]) if r.startswith('Ok')}
        yield f"{T}:string", None if got == want else f"a bare string is read as {sorted(got - want)[:2]} instead of {sorted(want - got)[:2]}"
        def derived(I, st, fr, c, args, atys, dty, depth, bb):
            m = re.search(r'_::<impl (.*)>::deserialize$', c['path'])
            return [(st, tok(f"DERIVED<{m.group(1)}>"))] if m else None
        got = {r for _, r, *_ in results(S, vis['visit_map'], [tok('self'), tok('map')], {'deserialize': derived})}
        yield f"{T}:map", None if got == {f"DERIVED<{T}>"} else f"a map is read as {sorted(got)[:2]} instead of by its generated code"

# ---------------------------------------------------------------- hand-written conversions
from spec import Any, Err, Bad
def IF_ERROR_READ(c):
    for v in ('Pass', 'Fail', 'Error'):
        if c.truth(f"eq('{v}',v)"): return f"Ok(IfError::{v})"
    return Err()
def if_error_write(v): return lambda c: f"Serializer::serialize_str(serializer,'{v}')"
def written(c): return [tuple(c.I.render(c.st, x) for x in r[1]) for r in c.st.mem.get(W, ('vec', ()))[1]]
def LOGGED():
    def start(I, st, fr, c, args, atys, dty, depth, bb): return [(st, ok(tok('S')))]
    def entry(I, st, fr, c, args, atys, dty, depth, bb):
        log(I, st, I.snap(st, I.deref(st, args[1], 8)), I.snap(st, I.deref(st, args[2], 8))); return [(st, ok(UNIT))]
    def end(I, st, fr, c, args, atys, dty, depth, bb): return [(st, ok(tok('END')))]
    Z = 'serde::ser::'
    return {Z + 'Serializer::serialize_map': start, Z + 'SerializeMap::serialize_entry': entry, Z + 'SerializeMap::end': end}
def PARTITIONING_WRITE(c):
    """Each partition, in order, with the values that are in it."""
    names = list(c.iter('self.partition_names')); want = []
    vals = list(c.iter('self.map')) if names else []
    for n in names: want.append((n, 'vec[' + ','.join(v + '.0' for v in vals if c.eq(v + '.1', n)) + ']'))
    got = written(c)
    if got != want: raise Bad(f"writes {got}, expected {want}")
    return 'Ok(END)'
def JSON_SEQ(c):
    """Every element, in order."""
    m, ps = 'seq', []
    while True:
        e = c.nm(f"SeqAccess::next_element({m})")
        if not c.ok(e): return Err(e + '.Err.0')
        if not c.some(e + '.Ok.0'): break
        ps.append(e + '.Ok.0.Some.0'); m = e + '!'
    return f"Ok(StringSourceJsonValue::Array(vec[{','.join(ps)}]))"
def GLOB_READ(c):
    s = c.nm("impls::deserialize(d)")
    if not c.ok(s): return Err(s + '.Err.0')
    p = c.nm(f"Pattern::new({s}.Ok.0)")
    return f"Ok({p}.Ok.0)" if c.ok(p) else Err(p + '.Err.0')
def GLOB_WRITE(c): return "Serializer::serialize_str(s,Pattern::as_str(pattern))"
def HEADER_READ(c):
    s = c.nm("impls::deserialize(d)")
    if not c.ok(s): return Err(s + '.Err.0')
    p = c.nm(f"HeaderValue::try_from({s}.Ok.0)")
    return f"Ok({p}.Ok.0)" if c.ok(p) else Err(p + '.Err.0')
def HEADER_WRITE(c):
    p = c.nm("HeaderValue::to_str(x)")
    return f"Serializer::serialize_str(s,{p}.Ok.0)" if c.ok(p) else Err(p + '.Err.0')
def HEADERS_READ(c):
    s = c.nm("HashMap<K, V, S>>::deserialize(d)")
    if not c.ok(s): return Err(s + '.Err.0')
    p = c.nm(f"HeaderMap::try_from({s}.Ok.0)")
    return f"Ok({p}.Ok.0)" if c.ok(p) else Err(p + '.Err.0')
def HEADERS_WRITE(c):
    es = []
    for h in c.iter('x'):
        p = c.nm(f"HeaderValue::to_str({h}.1)")
        if not c.ok(p): return Err(p + '.Err.0')
        es.append(f"({c.nm(f'HeaderName::as_str({h}.0)')},{p}.Ok.0)")
    return f"Serializer::collect_map(s,vec[{','.join(es)}])"
BY_HAND = [("IfErrorVisitor as serde::de::Visitor<'_>>::visit_str", ['self', 'v'], IF_ERROR_READ), ('NamedPartitioning as serde::ser::Serialize>::serialize', ['self', 'ser'], PARTITIONING_WRITE),
           ('glob::deserialize_pattern', ['d'], GLOB_READ), ('glob::serialize_pattern', ['pattern', 's'], GLOB_WRITE), ('serde_headervalue::deserialize', ['d'], HEADER_READ), ('serde_headervalue::serialize', ['x', 's'], HEADER_WRITE),
           ('serde_headermap::deserialize', ['d'], HEADERS_READ), ('serde_headermap::serialize', ['x', 's'], HEADERS_WRITE),
           ("RegexWrapper as core::convert::From<glue::regex::regex_parts::RegexParts>>::from", ['parts'], lambda c: 'RegexWrapper{parts=parts,regex=OnceLock::new()}'),
           ("<impl core::convert::From<glue::regex::RegexWrapper> for glue::regex::regex_parts::RegexParts>::from", ['w'], lambda c: 'w.parts')]
NUM = {'visit_bool': 'Ok(StringSourceJsonValue::Bool(v))', 'visit_i64': 'Ok(StringSourceJsonValue::Number(Number::from(v)))', 'visit_u64': 'Ok(StringSourceJsonValue::Number(Number::from(v)))', 'visit_unit': 'Ok(StringSourceJsonValue::Null)'}
