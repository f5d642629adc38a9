"""The configuration format: under which names variants and fields are read, which may be left out and what they then are, and what a bare string stands for.
Extracted from the generated readers by abstract interpretation and compared with the table of the format (format.json)."""
import re, json, os
import specs_serde as SD
from interp import tok

TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'format.json')
SKIP_BARE = ('GlobWrapper', 'TaskConfig')      # their strings are parsed, not stored
norm = lambda S, t: SD.plain(S, t)
def short(p): return re.sub(r'^.*::', '', p)

def rows(S):
    """Yields (type or type::variant, {'as': wire name, 'fields': {name: 'required' or default}})."""
    F = S.F; ws, rs = SD.pair(F)
    for T in sorted(rs):
        adt = next((a for p, a in F.adts.items() if p == re.sub(r'<.*', '', T)), None)
        w = ws.get(T, []); rem = [b for b in w if f"_::<impl {T}>::serialize" in b['path']]; w = (rem or w)[:1]
        if not w or not adt: continue
        for v in (adt['variants'] if 'visit_enum' in rs[T] else [None]):
            if v and v['n'] == 'Custom': continue
            nm = short(re.sub(r'<.*', '', T)) + ('::' + v['n'] if v else '')
            rec = S.write(w[0], v['n'] if v else None)
            if len(rec) != 1: continue
            recs = rec[0][0]; vn = [x[1] for x in recs if x[0] == 'variant']; keys = [x[1] for x in recs if x[0] == 'field']
            r = rs[T].get('visit_enum') if v else rs[T].get('visit_newtype_struct') or rs[T]['visit_map']
            if v and not vn and 'visit_map' in rs[T]: r = rs[T]['visit_map']
            fs = [f['n'] for f in (v or adt['variants'][0])['f']]; fields = {}
            def read(ks):
                o = [(I, s, I.deref(s, x, 8)) for I, s, x in S.read(r, ks, vn[0] if vn else None)]
                return [(I, s, I.deref(s, x[3][0], 8)) if x[0] == 'adt' and x[1] == SD.R and x[2] == 0 else None for I, s, x in o]
            full = read(keys)
            where = {}
            if len(full) == 1 and full[0]:
                I, s, x = full[0]
                where = {m.group(1): f for f, y in zip(fs, x[3] or ()) for m in [re.match(r'in\[(.*?)\]', I.render(s, I.deref(s, y, 8)))] if m}
            for k in keys:
                o = read([x for x in keys if x != k])
                if len(o) != 1: fields[k] = f"{len(o)} ways"; continue
                if o[0] is None: fields[k] = 'required'; continue
                I, s, x = o[0]
                got = {f: I.render(s, I.deref(s, y, 8)) for f, y in zip(fs, x[3] or ())}
                fields[k] = norm(S, got.get(where.get(k), '?'))
            yield nm, {'as': vn[0] if vn else None, 'fields': fields}
def bare(S):
    """Yields (type, {string or '*': what it stands for})."""
    for T in SD.magic(S):
        if short(T) in SKIP_BARE: continue
        b = S.meth.get((T, 'from_str', 'FromStr')); out = {}
        if not b: continue
        for f, r, *_ in SD.results(S, b, [tok('s')]):
            named = [m.group(1) for k, val in f.items() if val is True for m in [re.fullmatch(r"eq\('(.*)',s\)|eq\(s,'(.*)'\)", k)] if m]
            if not named and r.startswith('Err(') and not any('(s)' in k for k in f): r = 'refused'
            elif r.startswith('Err('): continue
            out[named[0] if named else '*'] = norm(S, r)
        yield short(T), out
def extract(F):
    S = SD.Serde(F)
    return {'read': dict(rows(S)), 'bare': dict(bare(S))}

def check(rep, F):
    from facts import Missing
    want = json.load(open(TABLE)); got = extract(F)
    for nm, w in want['read'].items():
        g = got['read'].get(nm)
        if g is None:
            T = nm.split('::')[0]
            if not any(k.split('::')[0] == T for k in got['read']): raise Missing(f"a reader of {T}")
            rep.bad(f"{nm}:gone", f"{nm} is no longer read", nm); continue
        rep.count('types_and_variants'); rep.count('obligations')
        if w['as'] != g['as']: rep.bad(f"{nm}:name", f"{nm} is read under the name {g['as']}, documented as {w['as']}", nm)
        for k, d in w['fields'].items():
            rep.count('fields')
            if k not in g['fields']: rep.bad(f"{nm}.{k}:name", f"{nm} no longer reads a field `{k}`", f"{nm}.{k}")
            elif g['fields'][k] != d: rep.bad(f"{nm}.{k}:absent", f"{nm} without `{k}`: {'it may be left out and is then ' + g['fields'][k] if d == 'required' else 'it is required' if g['fields'][k] == 'required' else 'it is read as ' + g['fields'][k]}, documented: {'required' if d == 'required' else 'optional, ' + d}", f"{nm}.{k}")
        for k, d in g['fields'].items():
            if k not in w['fields'] and d == 'required': rep.bad(f"{nm}.{k}:new", f"{nm} is not read without a field `{k}` that configurations do not have", f"{nm}.{k}")
    for T, w in want['bare'].items():
        rep.count('obligations'); rep.count('bare_strings', len(w))
        g = got['bare'].get(T)
        if g is None: rep.bad(f"{T}:bare", f"{T} is no longer read from a bare string", T); continue
        for k, r in w.items():
            n = g.get(k, g.get('*', 'refused'))
            if n != r: rep.bad(f"{T}:bare:{k}", f"the bare string {k!r} for {T} stands for {n}, documented: {r}", T)
if __name__ == '__main__':
    import sys
    from facts import Facts
    json.dump(extract(Facts('/verif/build/facts/url_cleaner-lib.json')), open(TABLE, 'w'), indent=1, sort_keys=True)
