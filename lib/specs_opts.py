"""Specifications of the pattern and encoding options: regexes, globs and base64 engines are built from exactly what was configured."""
import re
from spec import Err, Any, Ret, Bad
from specs_http import split_args
def steps(t, typ):
    """[(method, args..)] of a builder chain, innermost first, and the call it starts from."""
    out = []
    while True:
        t = t.rstrip('!'); m = re.match(typ + r'::(\w+)\(', t)
        if not m or not t.endswith(')') or m.group(1) in ('new', 'default'): return t, out[::-1]
        a = split_args(t[m.end():-1]); out.append((m.group(1),) + tuple(a[1:])); t = a[0]
FLAGS = [('case_insensitive', 'i'), ('crlf', 'R'), ('dot_matches_new_line', 's'), ('ignore_whitespace', 'x'), ('multi_line', 'm'), ('octal', 'o'), ('swap_greed', 'U'), ('unicode', 'u')]
SETTERS = [f for f, _ in FLAGS] + ['line_terminator']
DEFAULT = "RegexConfig{case_insensitive=false,crlf=false,dot_matches_new_line=false,ignore_whitespace=false,line_terminator=10,multi_line=false,octal=false,swap_greed=false,unicode=true}"

# ------------------------------------------------------------------ regexes
def built(c, t, parts):
    """The term `RegexBuilder::build(...)` this path evaluates is a builder of the parts with every option of the parts, in any order."""
    base, ss = steps(t, 'RegexBuilder')
    if not ss or ss[-1][0] != 'build' : raise Bad(f"`{t[:200]}` is not a regex built from the pattern")
    if base != f"RegexBuilder::new({parts}.pattern)": raise Bad(f"the regex is built from `{base[:200]}`, not from {parts}.pattern")
    rest = ss[:-1]
    last = {}
    for s in rest: last[s[0]] = s[1:]
    for f in SETTERS:
        if last.get(f) == (f"{parts}.config.{f}",): continue
        if f not in last and default_here(c, f, f"{parts}.config.{f}"): continue
        if last.get(f) in (('true',), ('false',)) and c.fact(f"{parts}.config.{f}") is (last[f] == ('true',)): continue
        raise Bad(f"the option {f} of the built regex is {last.get(f)}, required {parts}.config.{f}")
    extra = set(last) - set(SETTERS)
    if extra: raise Bad(f"options the configuration does not have are set: {sorted(extra)}")
def default_here(c, f, t):
    """Leaving a setter out is fine where the path knows the option has the crate's default."""
    return c.fact(t) is (f == 'unicode') if f != 'line_terminator' else c.fact(t) == 10
def build_term(c, parts):
    """The build call the path made (compared, or returned)."""
    got = c.norm(c.rv)
    for k in [got] + [k for k in c.st.facts if k.startswith('RegexBuilder::build(')]:
        m = re.search(r'RegexBuilder::build\(', k)
        if m:
            i = m.end(); d = 1
            while i < len(k) and d: d += {'(': 1, ')': -1}.get(k[i], 0); i += 1
            return k[m.start():i]
    raise Bad(f"no regex is built (result `{got[:200]}`)")
def result_of(c, t):
    """A Result term, or the two-armed re-wrapping of it."""
    f = c.fact(t)
    if f == 'Ok': return [t, f"Ok({t}.Ok.0)"]
    if f == 'Err': return [t, f"Err({t}.Err.0)"]
    return [t]
def PARTS_BUILD(c):
    t = build_term(c, 'self'); built(c, t, 'self')
    c.fact(t); return result_of(c, t)
def WRAPPER_GET(c):
    g = 'OnceLock::get(self.regex)'
    if c.some(g): return f"Ok({g}.Some.0)"
    b = c.try_(c.ev('RegexParts::build', 'self.parts'))
    return lambda got: got.startswith('Ok(OnceLock::get_or_init(self.regex,λ{%s' % b) or got in (f"Ok({b})",) or re.fullmatch(r"Ok\(OnceLock::get\(self\.regex\)!*\.Some\.0\)", got) is not None
def WRAPPER_INTO(c):
    g = c.alias('OnceLock::into_inner(value.regex)', 'OnceLock::take(value.regex)')
    if c.some(g): return f"Ok({g}.Some.0)"
    b = c.ev('RegexParts::build', 'value.parts')
    return [b, f"Ok({b}.Ok.0)"] if c.fact(b) != 'Err' else [b, f"Err({b}.Err.0)"]
def PARTS_INTO(c):
    b = c.ev('RegexParts::build', 'value'); return [b, f"Ok({b}.Ok.0)"] if c.fact(b) != 'Err' else [b, f"Err({b}.Err.0)"]
def PARTS_FROM(c): return [f"RegexParts{{config={DEFAULT},pattern=s}}"]
def PARTS_FROM_STR(c): return [f"Ok(RegexParts{{config={DEFAULT},pattern=s}})"]
def WRAPPER_FROM(c): return [f"RegexWrapper{{parts=RegexParts{{config={DEFAULT},pattern=s}},regex=OnceLock::new()}}"]
def WRAPPER_FROM_STR(c): return [f"Ok({x})" for x in WRAPPER_FROM(c)]
def WRAPPER_FROM_PARTS(c): return 'RegexWrapper{parts=s,regex=OnceLock::new()}'
def PARTS_OF(c): return 'value.parts'
def CONFIG_DEFAULT(c): return DEFAULT

# ------------------------------------------------------------------ flags
def final(c, f):
    """What the field holds in the end: None if it was not written, else the term written."""
    t = c.I.render(c.st, ('tok', 'self'))
    m = re.search(r'[{,]%s:=(true|false|is\(find\(flags,\'.\'\),Some\)|BitOr\((?:is\(find\(flags,\'.\'\),Some\)|self\.\w+|,)*\)|[^,}]*)' % f, t)
    return m.group(1) if m else None
def contains(c, ch):
    """Whether the flags contain the character, as far as this path knows: asked directly, or found while going through them."""
    f = c.fact(has(c, ch))
    if f is not None or c.fact('has(str::chars(flags),0)') is None: return f
    seen = False
    for e in c.iter('str::chars(flags)'):
        v = c.st.facts.get(e)
        if v == ord(ch): return True
        if v is None and ord(ch) not in c.st.facts.get('¬' + e, ()): seen = None
    return seen
def has(c, ch): return f"is(find(flags,'{ch}'),Some)"
def flags(kind):
    def sp(c):
        for f, ch in FLAGS:
            v = final(c, f); t = has(c, ch)
            if v == t: v = 'has'
            elif v not in (None, 'true', 'false'):
                if kind == 'add' and v in (f"BitOr(self.{f},{t})", f"BitOr({t},self.{f})"): c.fact(t); continue
                raise Bad(f"{f} is set to `{v}`")
            if kind == 'set':
                if v == 'has': continue
                if v is None or (v == 'true') is not contains(c, ch): raise Bad(f"{f} is {v}; required: whether the flags contain {ch!r}")
            else:
                old = c.fact(f"self.{f}")
                end = v if v in ('true', 'false') else (c.fact(t) if v == 'has' else old)
                if v == 'has':
                    if kind == 'add' and old is False: continue
                    raise Bad(f"{f} is overwritten with whether the flags contain {ch!r}")
                p = contains(c, ch)
                if p is None and kind == 'add' and old is True and v in (None, 'true'): continue        # already set
                if p is None and kind == 'remove' and old is False and v in (None, 'false'): continue
                if p is True and v != ('true' if kind == 'add' else 'false') and old is not (kind == 'add'): raise Bad(f"the flags contain {ch!r}, but {f} is {'left alone' if v is None else v}")
                if p is False and v is not None and (v == 'true') is not old: raise Bad(f"the flags do not contain {ch!r}, but {f} is set to {v}")
                if p is None: raise Bad(f"{f} does not depend on whether the flags contain {ch!r}")
        ex = re.findall(r'[{,](\w+):=', c.I.render(c.st, ('tok', 'self')))
        if set(ex) - {f for f, _ in FLAGS}: raise Bad(f"options without a flag are written: {sorted(set(ex) - {f for f, _ in FLAGS})}")
        return '()'
    return sp
def GET_FLAGS(c):
    on = []
    for f, ch in FLAGS:
        v = c.fact(f"self.{f}")
        if v is None: raise Bad(f"the flag of {f} does not depend on it")
        if v: on.append(ch)
    def ok(got):
        m = re.fullmatch(r"'?(\w*)'?", got); return m is not None and sorted(m.group(1)) == sorted(on)
    ok.__name__ = f"the flags {''.join(on)}"
    return ok

# ------------------------------------------------------------------ globs
def MATCHES(c): return 'Pattern::matches_with(self.pattern,s,self.options)'
def MATCHES_PATH(c): return ['Pattern::matches_path_with(self.pattern,s,self.options)']
def GLOB_FROM(c): return ['GlobWrapper{options=MatchOptions::default(),pattern=s}', 'GlobWrapper{options=MatchOptions::new(),pattern=s}']
def GLOB_FROM_STR(c):
    p = c.try_(c.alias('Pattern::from_str(s)', 'Pattern::new(s)')); return [f"Ok(GlobWrapper{{options=MatchOptions::{k}(),pattern={p}}})" for k in ('default', 'new')]

# ------------------------------------------------------------------ base64
def B64(c):
    a = {'UrlSafe': 'URL_SAFE', 'Standard': 'STANDARD'}[c.choose('self.alphabet', ['UrlSafe', 'Standard'])]
    p = c.choose('self.decode_padding', ['Indifferent', 'RequireCanonical', 'RequireNone'])
    enc = c.fact('self.encode_padding')
    def ok(got):
        m = re.fullmatch(r'GeneralPurpose::new\((.*)\)', got, re.S)
        if not m: return False
        al, cf = split_args(m.group(1))
        if not re.fullmatch(r'(const:)?(base64::)?(alphabet::)?' + a, al): return False
        base, ss = steps(cf, 'GeneralPurposeConfig'); d = {}
        for s in ss: d[s[0]] = s[1:]
        if d.get('with_decode_padding_mode', ()) != (f'DecodePaddingMode::{p}',): return False
        if enc is None:
            if d.get('with_encode_padding') != ('self.encode_padding',): return False
        elif d.get('with_encode_padding', ('true',)) not in (('self.encode_padding',), ('true' if enc else 'false',)): return False
        return not set(d) - {'with_decode_padding_mode', 'with_encode_padding'} and (base in ('GeneralPurposeConfig::new()', 'GeneralPurposeConfig::default()'))
    ok.__name__ = f"an engine with the alphabet {a}, decode padding {p} and the configured encode padding"
    return ok
def B64_DEFAULT(c): return 'Base64Config{alphabet=Base64Alphabet::UrlSafe,decode_padding=Base64DecodePaddingMode::Indifferent,encode_padding=true}'
