"""Loads the JSON facts written by the rustc driver and offers lookups over them."""
import json, os, re

class Facts:
    def __init__(self, path):
        with open(path) as fh:
            d = json.load(fh)
        self.crate = d['crate']; self.T = d['types']; self.features = d['features']
        self.unsafe_lint = d['unsafe_lint']; self.impls = d['impls']; self.statics = d['statics']
        self.nonfreeze = d['nonfreeze']; self.nroots = d['roots']
        self.adts = {a['path']: a for a in d['adts']}
        self.B = {}
        for b in d['bodies']:
            self.B.setdefault(b['key'], b)
        self.local = [b for b in self.B.values() if b['local']]
        self.real = [b for b in self.local if b['dk'] != 'Promoted']   # bodies of things a program names
        self.by_root = {}
        for b in self.local:
            if b['dk'] == 'Closure':
                self.by_root.setdefault(b['root'], []).append(b)
        self._type_field_cache = {}

    # --- types
    def ty(self, i): return self.T[i] if i is not None and i >= 0 else {'s': '?', 'k': 'prim'}
    def tys(self, i): return self.ty(i)['s']
    def peel(self, i):
        """Strip references/boxes."""
        while True:
            t = self.ty(i)
            if t.get('k') in ('ref', 'ptr'): i = t['to']
            elif t.get('k') == 'adt' and t['adt'] == 'alloc::boxed::Box': i = t['args'][0]
            else: return i
    def adt_of(self, i):
        t = self.ty(self.peel(i))
        return t['adt'] if t.get('k') == 'adt' else None

    # --- bodies
    def is_body_fn(self, b): return b['local'] and b['dk'] in ('Fn', 'AssocFn', 'Closure') and not b['key'].split('|')[1].count('#')
    def methods(self, adt_last, name, trait=None, derived=None):
        out = []
        for b in self.local:
            if b['name'] != name or b['dk'] != 'AssocFn' or 'impl_self' not in b: continue
            a = self.adt_of(b['impl_self'])
            if a is None or a.split('::')[-1] != adt_last: continue
            tr = b.get('impl_trait')
            if trait is None and tr is not None: continue
            if trait is not None and (tr is None or tr.split('::')[-1] != trait): continue
            if derived is not None and bool(b.get('derived')) != derived: continue
            out.append(b)
        return out
    def method(self, adt_last, name, trait=None):
        m = self.methods(adt_last, name, trait)
        if len(m) != 1:
            raise Missing(f"expected exactly one `{adt_last}::{name}`" + (f" (impl {trait})" if trait else '') + f", found {len(m)}")
        return m[0]
    def fns(self, name):
        return [b for b in self.local if b['dk'] == 'Fn' and b['name'] == name]
    def fn(self, name):
        m = self.fns(name)
        if len(m) != 1: raise Missing(f"expected exactly one function `{name}`, found {len(m)}")
        return m[0]
    def adt(self, last):
        m = [a for p, a in self.adts.items() if p.split('::')[-1] == last and a['crate'] == self.crate]
        if len(m) != 1: raise Missing(f"expected exactly one type `{last}`, found {len(m)}")
        return m[0]
    def callees(self, b):
        """(callee-dict, args, block index, span) of every direct call in a body."""
        for i, bb in enumerate(b['bb']):
            t = bb['t']
            if t[0] == 'call':
                f = t[1].get('k', {}).get('fn') if 'k' in t[1] else None
                yield f, t, i, bb
    def field_writes(self, b, adt):
        """(what, field index, span) of every place of a body that assigns or mutably borrows a field of `adt`, or builds one."""
        def through(pl):
            t = b['locals'][pl[0]]; t = t if isinstance(t, int) else t.get('t', t.get('ty')); hit = None
            for s in pl[1:]:
                x = self.ty(t)
                if s == '*': t = x.get('to') if x.get('k') in ('ref', 'ptr') else (x.get('args') or [None])[0]
                elif s[0] == 'f':
                    if x.get('k') == 'adt' and x['adt'] == adt: hit = s[1]
                    t = s[2]
                elif s[0] == 'd': pass
                else: t = x.get('elem') if 'elem' in x else None
                if t is None: break
            return hit
        for bb in b['bb']:
            for s in bb['s']:
                if s[0] != '=': continue
                h = through(s[1])
                if h is not None: yield 'assigns', h, s[3]
                r = s[2]
                if r[0] in ('ref', 'addr') and r[1] not in ('shared', 'const', 'imm', 'fake'):
                    h = through(r[2])
                    if h is not None: yield 'borrows', h, s[3]
                if r[0] == 'agg' and r[1][0] == 'adt' and r[1][1] == adt: yield 'builds', None, s[3]
            t = bb['t']
            if t[0] == 'call':
                h = through(t[3])
                if h is not None: yield 'assigns', h, t[-1]
    def fn_operands(self, b):
        """Every function item mentioned in a body (called or taken as a value), and closures built."""
        out = []
        def op(o):
            if isinstance(o, dict) and 'k' in o:
                f = o['k'].get('fn')
                if f: out.append(f)
                p = o['k'].get('promoted')
                if p: out.append({'key': p, 'promoted': True, 'path': p, 'u': p, 'crate': self.crate, 'name': ''})
        for bb in b['bb']:
            for s in bb['s']:
                if s[0] == '=':
                    r = s[2]
                    if r[0] == 'agg':
                        if r[1][0] == 'closure': out.append({'key': r[1][1], 'closure': True, 'path': r[1][1], 'u': r[1][1], 'crate': self.crate, 'name': ''})
                        for o in r[2]: op(o)
                    else:
                        for o in r[1:]: op(o)
            t = bb['t']
            if t[0] == 'call':
                op(t[1]); [op(a) for a in t[2]]
            elif t[0] == 'switch': op(t[1])
        return out

class Missing(Exception):
    """An anchor the check needs is not in the analysed program: fail closed."""
