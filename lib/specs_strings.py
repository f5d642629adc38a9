"""Specifications of string modifications, string matchers, character matchers and string locations."""
import re
from spec import Err, Any, Ret, Bad, joined as text_joined
from specs_rules import V, const_, explicit_error, common, map_get, if_, treat, first_not_error, try_else_plain, regex

# ------------------------------------------------------------------ StringModification
MODIFICATION = {}
M = MODIFICATION
OK = 'Ok(())'
def mod(c, x): return c.ev('StringModification::apply', x, c.S['to'], c.state(), mut=('to',))
def put(c, t): c.S['to'] = t; return OK
def prim(*names):
    """An elementary modification: a failure leaves the string as it was."""
    def deco(f):
        def g(c, n=None):
            c.check_err_state = True
            return f(c)
        for n in names: M[n] = g
        return f
    return deco
def s(c, x): return c.get_str(x)
M['None'] = const_(OK); M['Error'] = explicit_error
M['Debug'] = lambda c: mod(c, 'self.Debug.0')
@V(M, 'IgnoreError')
def _(c): mod(c, 'self.IgnoreError.0'); return OK
@V(M, 'RevertOnError')
def _(c):
    old = c.S['to']; c.check_err_state = True
    r = mod(c, 'self.RevertOnError.0')
    if c.ok(r): return OK
    c.S['to'] = old; return Err(r + '.Err.0')
M['TryElse'] = try_else_plain(mod)
@V(M, 'All')
def _(c):
    for e in c.iter('self.All.0'): c.try_(mod(c, e))
    return OK
M['FirstNotError'] = first_not_error(mod, OK)
def branch(n, sat):
    def f(c):
        if c.try_bool(sat(c)): return mod(c, f"self.{n}.then")
        return mod(c, f"self.{n}.else.Some.0") if c.some(f"self.{n}.else") else OK
    return f
M['If'] = branch('If', lambda c: c.sat('self.If.condition'))
M['IfMatches'] = branch('IfMatches', lambda c: c.ev('StringMatcher::satisfied_by', 'self.IfMatches.matcher', c.S['to'], c.state()))
@V(M, 'StringMap')
def _(c):
    m = map_get(c, 'self.StringMap.map', c.get_opt('self.StringMap.value'))
    return mod(c, m) if m else OK
@prim('Set')
def _(c): return put(c, s(c, 'self.Set.0'))
@prim('Append')
def _(c): x = s(c, 'self.Append.0'); return put(c, f"cat(to,{x})")
@prim('Prepend')
def _(c): x = s(c, 'self.Prepend.0'); return put(c, f"cat({x},to)")
@prim('Replace')
def _(c):
    a, b = c.par(lambda: s(c, 'self.Replace.find'), lambda: s(c, 'self.Replace.replace')); return put(c, f"str::replace(to,{a},{b})")
@prim('Replacen')
def _(c):
    a, b = c.par(lambda: s(c, 'self.Replacen.find'), lambda: s(c, 'self.Replacen.replace')); return put(c, f"str::replacen(to,{a},{b},self.Replacen.count)")
def need(c, t, err):
    if not c.some(t): raise Ret(Err(err))
    return t + '.Some.0'
@prim('ReplaceRange')
def _(c):
    r = need(c, 'util::neg_range(self.ReplaceRange.start,self.ReplaceRange.end,len(to))', 'InvalidSlice')
    if not c.is_some(f"str::get(to,{r})"): return Err('InvalidSlice')
    return put(c, f"String::replace_range(to,{r},{s(c, 'self.ReplaceRange.replace')})!")
@prim('KeepRange')
def _(c):
    r = need(c, 'util::neg_range(self.KeepRange.start,self.KeepRange.end,len(to))', 'InvalidSlice')
    return put(c, need(c, f"str::get(to,{r})", 'InvalidSlice'))
M['Lowercase'] = lambda c: put(c, 'str::to_lowercase(to)'); M['Uppercase'] = lambda c: put(c, 'str::to_uppercase(to)')
def strip(n, which, err):
    def f(c):
        c.check_err_state = True
        t = f"strip_{which}(to,{s(c, f'self.{n}.0')})"
        if c.is_some(t): return put(c, t + '.Some.0')
        return Err(err) if err else OK
    M[n] = f
strip('StripPrefix', 'prefix', 'PrefixNotFound'); strip('StripSuffix', 'suffix', 'SuffixNotFound'); strip('StripMaybePrefix', 'prefix', None); strip('StripMaybeSuffix', 'suffix', None)
@prim('Insert')
def _(c):
    i = need(c, 'util::neg_index(self.Insert.index,len(to))', 'InvalidIndex')
    if not c.truth(f"str::is_char_boundary(to,{i})"): return Err('InvalidIndex')
    return put(c, f"String::insert_str(to,{i},{s(c, 'self.Insert.value')})!")
@prim('RemoveChar')
def _(c):
    i = need(c, 'util::neg_index(self.RemoveChar.0,len(to))', 'InvalidIndex')
    if not c.truth(f"str::is_char_boundary(to,{i})"): return Err('InvalidIndex')
    return put(c, f"String::remove(to,{i})!")
@prim('RegexCaptures')
def _(c):
    out = [None, None]
    def a(): out[0] = s(c, 'self.RegexCaptures.replace')
    def b(): out[1] = regex(c, 'self.RegexCaptures.regex')
    c.par(a, b)
    return put(c, f"Captures::expand({need(c, f'Regex::captures({out[1]},to)', 'RegexMatchNotFound')},{out[0]})")
@prim('JoinAllRegexCaptures')
def _(c):
    rep, join, re = c.par(lambda: s(c, 'self.JoinAllRegexCaptures.replace'), lambda: s(c, 'self.JoinAllRegexCaptures.join'), lambda: regex(c, 'self.JoinAllRegexCaptures.regex'))
    ps = [f"Captures::expand({e},{rep})" for e in c.iter(f"Regex::captures_iter({re},to)")]
    empty = c.fact(f"eq(0,len({join}))")
    out = []
    for i, p in enumerate(ps):
        if i and not empty: out.append(join)
        out.append(p)
    if not out: return put(c, "''")
    return put(c, f"cat({','.join(out)})" if len(out) > 1 else out[0])
@prim('RegexFind')
def _(c): return put(c, f"Match::as_str({need(c, f'''Regex::find({regex(c, 'self.RegexFind.0')},to)''', 'RegexMatchNotFound')})")
def rrep(n, fn, extra=''):
    def f(c):
        c.check_err_state = True
        re, x = c.par(lambda: regex(c, f"self.{n}.regex"), lambda: s(c, f"self.{n}.replace"))
        return put(c, f"Regex::{fn}({re},to,{extra}{x})")
    M[n] = f
rrep('RegexReplace', 'replace'); rrep('RegexReplaceAll', 'replace_all'); rrep('RegexReplacen', 'replacen', 'self.RegexReplacen.n,')
M['UrlEncode'] = lambda c: put(c, 'percent_encoding::utf8_percent_encode(to,UrlEncodeAlphabet::get(self.UrlEncode.0))')
@prim('UrlDecode')
def _(c): return put(c, c.try_('PercentDecode::decode_utf8(percent_encoding::percent_decode_str(to))'))
M['Base64Encode'] = lambda c: put(c, 'Engine::encode(Base64Config::build(self.Base64Encode.0),to)')
@prim('Base64Decode')
def _(c):
    d = 'Engine::decode(Base64Config::build(self.Base64Decode.0),to)'
    return put(c, c.try_(f"String::from_utf8({c.try_(d)})"))
@prim('JsonPointer')
def _(c):
    j, p = c.par(lambda: c.try_('de::from_str(to)'), lambda: s(c, 'self.JsonPointer.0'))
    v = need(c, f"Value::pointer({j},{p})", 'JsonValueNotFound')
    return put(c, need(c, f"Value::as_str({v})", 'JsonValueIsNotAString'))
def kq(n, want):
    def f(c):
        c.check_err_state = True; keep = []
        for e in c.iter("str::split(to,'&')"):
            k = f"str::split({e},'=')[0]"; f = c.fact(f"str::split_once({e},'=')")    # the name of a parameter, found either way
            if f: k = f"str::split_once({e},'=').Some.0.0" if f == 'Some' else e
            if c.try_bool(c.ev('StringMatcher::satisfied_by', f"self.{n}.0", k, c.state())) == want: keep.append(e)
        return put(c, text_joined(keep, "'&'"))
    M[n] = f
kq('RemoveQueryParamsMatching', False); kq('AllowQueryParamsMatching', True)
@prim('ExtractBetween')
def _(c):
    x = 'self.ExtractBetween'
    a = f"str::split_once(to,{s(c, x + '.start')})"
    if not c.some(a): return Err('ExtractBetweenStartNotFound')
    b = f"str::split_once({a}.Some.0.1,{s(c, x + '.end')})"
    if not c.some(b): return Err('ExtractBetweenEndNotFound')
    return put(c, b + '.Some.0.0')
M['Common'] = lambda c: common(c, 'StringModification::apply', 'CommonStringModificationNotFound', 'string_modifications', ('to',), (c.S['to'],))
@prim('GetJsStringLiteralPrefix')
def _(c): return put(c, c.try_('string_literal_prefix::string_literal_prefix(to)'))
@prim('UnescapeHtmlText')
def _(c): return put(c, c.try_('unescape::unescape_text(to)'))
@prim('GetHtmlAttribute')
def _(c):
    a = need(c, c.try_(f"get_attribute::get_attribute_value(to,{s(c, 'self.GetHtmlAttribute.0')})"), 'HtmlAttributeNotFound')
    return put(c, need(c, a, 'HtmlAttributeHasNoValue'))
@prim('KeepNthSegment')
def _(c):
    sp = s(c, 'self.KeepNthSegment.split')
    return put(c, need(c, f"util::neg_nth(str::split(to,{sp}),self.KeepNthSegment.index)", 'SegmentNotFound'))
@prim('KeepSegmentRange')
def _(c):
    sp = s(c, 'self.KeepSegmentRange.split')
    v = need(c, f"util::neg_vec_keep(str::split(to,{sp}),self.KeepSegmentRange.start,self.KeepSegmentRange.end)", 'SegmentRangeNotFound')
    return put(c, f"slice::join({v},{sp})")
def pos(c, name, n):
    """Position chosen by neg_index / neg_range_boundary in a list of known length: None or a number."""
    f = c.fact(name)
    if f is None: raise Bad(f"{name} is never consulted")
    return None if f == 'None' else int(f)
@prim('SetSegment')
def _(c):
    sp = s(c, 'self.SetSegment.split')
    seg = list(c.iter(f"str::split(to,{sp})"))
    i = pos(c, f"neg_index(self.SetSegment.index,{len(seg)})", len(seg))
    if i is None: return Err('SegmentNotFound')
    v = c.get_opt('self.SetSegment.value')
    if c.some(v): seg[i] = v + '.Some.0'
    else: del seg[i]
    return put(c, text_joined(seg, sp))
@prim('InsertSegment')
def _(c):
    sp = s(c, 'self.InsertSegment.split')
    seg = list(c.iter(f"str::split(to,{sp})"))
    i = pos(c, f"neg_range_boundary(self.InsertSegment.index,{len(seg)})", len(seg))
    if i is None: return Err('SegmentNotFound')
    v = c.get_opt('self.InsertSegment.value')
    if c.some(v): seg.insert(i, v + '.Some.0')
    return put(c, text_joined(seg, sp))
M['Custom'] = lambda c: c.ev('(*self.Custom.0)', c.S['to'], c.state(), mut=('to',))

# ------------------------------------------------------------------ combinators shared by the three matcher types
def matcher_table(label, args):
    T = {}
    def sat(c, x): return c.ev(label, x, *args(c))
    T['Always'] = const_('Ok(true)'); T['Never'] = const_('Ok(false)')
    T['Debug'] = lambda c: sat(c, 'self.Debug.0')
    T['If'] = if_(sat)
    from specs_rules import all_, any_
    T['All'] = all_(sat); T['Any'] = any_(sat)
    T['Not'] = lambda c: c.bool(not c.try_bool(sat(c, 'self.Not.0')))
    T['TreatErrorAsPass'] = treat(sat, 'TreatErrorAsPass', 'true'); T['TreatErrorAsFail'] = treat(sat, 'TreatErrorAsFail', 'false')
    T['TryElse'] = try_else_plain(sat); T['FirstNotError'] = first_not_error(sat, 'Ok(false)')
    return T, sat
def flagged(t): return lambda c: c.bool(c.truth(t))
def search(c, kind, hay, needle):
    """contains / starts_with / ends_with"""
    return c.bool(c.is_some({'in': 'find', 'start': 'strip_prefix', 'end': 'strip_suffix'}[kind] + f"({hay},{needle})"))

# ------------------------------------------------------------------ StringLocation
LOCATION, locsat = matcher_table('StringLocation::satisfied_by', lambda c: ('hay', 'needle'))
L = LOCATION
def loc(c, what, hay): return c.ev('StringLocation::satisfied_by', what, hay, 'needle')
L['Error'] = explicit_error
L['Anywhere'] = lambda c: search(c, 'in', 'hay', 'needle'); L['Start'] = lambda c: search(c, 'start', 'hay', 'needle'); L['End'] = lambda c: search(c, 'end', 'hay', 'needle')
L['Equals'] = lambda c: c.bool(c.eq('hay', 'needle'))
def cutloc(n, rng, kind):
    def f(c):
        i = need(c, f"util::neg_range_boundary(self.{n}.0,len(hay))", 'InvalidIndex')
        h = need(c, f"str::get(hay,{rng.replace('#', i)})", 'InvalidSlice')
        return search(c, kind, h, 'needle')
    L[n] = f
cutloc('StartsAt', 'RangeFrom{start=#}', 'start'); cutloc('EndsAt', 'RangeTo{end=#}', 'end'); cutloc('After', 'RangeFrom{start=#}', 'in'); cutloc('Before', 'RangeTo{end=#}', 'in')
@V(L, 'Range')
def _(c):
    r = need(c, 'util::neg_range(self.Range.start,self.Range.end,len(hay))', 'InvalidSlice')
    return loc(c, 'self.Range.location', need(c, f"str::get(hay,{r})", 'InvalidSlice'))
@V(L, 'AnySegment')
def _(c):
    for e in c.iter('str::split(hay,self.AnySegment.split)'):
        if c.try_bool(loc(c, 'self.AnySegment.location', e)): return 'Ok(true)'
    return 'Ok(false)'
@V(L, 'NthSegment')
def _(c): return loc(c, 'self.NthSegment.location', need(c, 'util::neg_nth(str::split(hay,self.NthSegment.split),self.NthSegment.n)', 'SegmentNotFound'))

# ------------------------------------------------------------------ CharMatcher
CHAR, charsat = matcher_table('CharMatcher::satisfied_by', lambda c: ('c',))
C = CHAR
C['Error'] = lambda c: Err('ExplicitError')
C['Equals'] = lambda c: c.bool(c.eq('c', 'self.Equals.0'))
C['Between'] = lambda c: c.bool(not c.lt('c', 'self.Between.min') and not c.lt('self.Between.max', 'c'))
C['IsOneOf'] = lambda c: c.bool(c.contains('self.IsOneOf.0', 'c'))
for _n, _f in {'IsAlphabetic': 'is_alphabetic', 'IsAlphanumeric': 'is_alphanumeric', 'IsAscii': 'is_ascii', 'IsAsciiAlphabetic': 'is_ascii_alphabetic', 'IsAsciiAlphanumeric': 'is_ascii_alphanumeric',
               'IsAsciiControl': 'is_ascii_control', 'IsAsciiDigit': 'is_ascii_digit', 'IsAsciiGraphic': 'is_ascii_graphic', 'IsAsciiHexdigit': 'is_ascii_hexdigit', 'IsAsciiLowercase': 'is_ascii_lowercase',
               'IsAsciiPunctuation': 'is_ascii_punctuation', 'IsAsciiUppercase': 'is_ascii_uppercase', 'IsAsciiWhitespace': 'is_ascii_whitespace', 'IsControl': 'is_control', 'IsDigit': 'is_ascii_digit',
               'IsLowercase': 'is_lowercase', 'IsNumeric': 'is_numeric', 'IsUppercase': 'is_uppercase', 'IsWhitespace': 'is_whitespace'}.items():
    C[_n] = flagged(f"methods::{_f}(c)")
@V(C, 'IsDigitRadix')
def _(c):
    """A radix `char::is_digit` does not accept is an error, not a panic."""
    if c.lt('36', 'self.IsDigitRadix.0') or c.lt('self.IsDigitRadix.0', '2'): return Err('InvalidRadix')
    return c.bool(c.truth('methods::is_digit(c,self.IsDigitRadix.0)'))

# ------------------------------------------------------------------ StringMatcher
MATCHER, msat = matcher_table('StringMatcher::satisfied_by', lambda c: ('hay', c.state()))
T = MATCHER
def mat(c, what, hay, **over): return c.ev('StringMatcher::satisfied_by', what, hay, c.state(**over))
T['Error'] = explicit_error
T['IsOneOf'] = lambda c: c.bool(c.contains('self.IsOneOf.0', 'hay'))
T['Contains'] = lambda c: c.ev('StringLocation::satisfied_by', 'self.Contains.where', 'hay', s(c, 'self.Contains.value'))
@V(T, 'ContainsAny')
def _(c):
    for e in c.iter('self.ContainsAny.values'):
        if c.try_bool(c.ev('StringLocation::satisfied_by', 'self.ContainsAny.where', 'hay', s(c, e))): return 'Ok(true)'
    return 'Ok(false)'
@V(T, 'ContainsAnyInList')
def _(c):
    n = s(c, 'self.ContainsAnyInList.list')
    l = need(c, f"HashMap::get({c.S['params']}.lists,{n})", 'ListNotFound')
    for e in c.iter(l):
        if c.try_bool(c.ev('StringLocation::satisfied_by', 'self.ContainsAnyInList.where', 'hay', e)): return 'Ok(true)'
    return 'Ok(false)'
T['Is'] = lambda c: c.bool(c.eq(s(c, 'self.Is.0'), 'hay'))
@V(T, 'InSet')
def _(c):
    t = f"HashMap::get({c.S['params']}.sets,{s(c, 'self.InSet.0')})"
    return c.bool(c.contains(t + '.Some.0', 'hay')) if c.some(t) else 'Ok(false)'
T['Regex'] = lambda c: c.bool(c.truth(f"Regex::is_match({regex(c, 'self.Regex.0')},hay)"))
T['Glob'] = flagged('Pattern::matches_with(self.Glob.0.pattern,hay,self.Glob.0.options)')
@V(T, 'Modified')
def _(c):
    r = c.ev('StringModification::apply', 'self.Modified.modification', 'hay', c.state()); c.try_(r)
    return mat(c, 'self.Modified.matcher', 'hay' + "'" + r.rsplit('#', 1)[1])
@V(T, 'OnlyTheseChars')
def _(c): return c.bool(c.truth('eq(0,len(str::trim_start_matches(hay,self.OnlyTheseChars.0)))'))
@V(T, 'AllCharsMatch')
def _(c):
    for e in c.iter('str::chars(hay)'):
        if not c.try_bool(c.ev('CharMatcher::satisfied_by', 'self.AllCharsMatch.0', e)): return 'Ok(false)'
    return 'Ok(true)'
@V(T, 'AnyCharMatches')
def _(c):
    for e in c.iter('str::chars(hay)'):
        if c.try_bool(c.ev('CharMatcher::satisfied_by', 'self.AnyCharMatches.0', e)): return 'Ok(true)'
    return 'Ok(false)'
T['IsAscii'] = flagged('str::is_ascii(hay)')
@V(T, 'NthSegmentMatches')
def _(c):
    sp = s(c, 'self.NthSegmentMatches.split')
    return mat(c, 'self.NthSegmentMatches.matcher', need(c, f"util::neg_nth(str::split(hay,{sp}),self.NthSegmentMatches.n)", 'SegmentNotFound'))
@V(T, 'AnySegmentMatches')
def _(c):
    for e in c.iter(f"str::split(hay,{s(c, 'self.AnySegmentMatches.split')})"):
        if c.try_bool(mat(c, 'self.AnySegmentMatches.matcher', e)): return 'Ok(true)'
    return 'Ok(false)'
T['LengthIs'] = lambda c: c.bool(c.eq('len(hay)', 'self.LengthIs.0'))
@V(T, 'SegmentsEndWith')
def _(c):
    """`value` ends the string and what precedes it is empty or ends with the separator."""
    sp, v = c.par(lambda: s(c, 'self.SegmentsEndWith.split'), lambda: s(c, 'self.SegmentsEndWith.value'))
    t = f"strip_suffix(hay,{v})"
    if not c.is_some(t): return 'Ok(false)'
    seg = list(c.iter(f"str::split({t}.Some.0,{sp})"))
    return c.bool(c.eq("''", seg[-1]))
@V(T, 'SegmentsStartWith')
def _(c):
    sp, v = c.par(lambda: s(c, 'self.SegmentsStartWith.split'), lambda: s(c, 'self.SegmentsStartWith.value'))
    t = f"strip_prefix(hay,{v})"
    return search(c, 'start', t + '.Some.0', sp) if c.is_some(t) else 'Ok(false)'
T['Common'] = lambda c: common(c, 'StringMatcher::satisfied_by', 'CommonStringMatcherNotFound', 'string_matchers', (), ('hay',))
T['Custom'] = lambda c: c.ev('(*self.Custom.0)', 'hay', c.state())

# ------------------------------------------------------------------ the characters percent encoding encodes
import string as _st
def _encoded(keep): return {i for i in range(128) if chr(i) not in _st.ascii_letters + _st.digits + keep}
ALPHABETS = {'JsEncodeUriComponent': _encoded("-_.!~*'()"), 'JsEncodeUri': _encoded("-_.!~*'();/?:@&=+$,#"), 'NonAlphanumeric': _encoded('')}
def ascii_set(t):
    """The characters in an AsciiSet constant, read from its bytes."""
    m = re.search(r'raw\(([0-9a-f]{32})\)', str(t))
    if not m: return None
    n = int.from_bytes(bytes.fromhex(m.group(1)), 'little')
    return {i for i in range(128) if n >> i & 1}
def alphabet(v):
    def f(c):
        def same(got):
            s = ascii_set(got)
            return s == ALPHABETS[v]
        return same
    return f
ALPHABET = {v: alphabet(v) for v in ALPHABETS}
