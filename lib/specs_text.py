"""Reference semantics of the text formats: None = not specified."""
HEX = '0123456789abcdefABCDEF'
SIMPLE = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\v', '\n': '', "'": "'", '"': '"', '\\': '\\'}
def js(s, _=None):
    """The value of the JavaScript string literal at the start of s."""
    if not s: return None
    if s[0] not in '"\'': return ('Err',)
    q = s[0]; i = 1; out = ''
    def cp(n): return chr(n) if n <= 0x10FFFF and not 0xD800 <= n <= 0xDFFF else None
    while True:
        if i >= len(s): return None               # unterminated: not specified
        c = s[i]
        if c == q: return ('Ok', out)
        if c in '\n\r': return None               # a line terminator inside a literal: not specified
        if c != '\\': out += c; i += 1; continue
        i += 1
        if i >= len(s): return None
        c = s[i]
        if c in SIMPLE: out += SIMPLE[c]; i += 1
        elif c == '0' and (i + 1 >= len(s) or s[i + 1] not in '0123456789'): out += '\0'; i += 1
        elif c in '01234567':
            if c == '0' or len(s) < i + 3 or s[i + 1] not in '01234567' or s[i + 2] not in '01234567': return None   # legacy octals of other lengths: not specified
            n = int(s[i:i + 3], 8)
            if n > 255: return None
            out += chr(n); i += 3
        elif c in '89': return None
        elif c == 'x':
            h = s[i + 1:i + 3]
            for k in h:
                if k not in HEX: return ('Err',)
            if len(h) < 2: return None
            out += chr(int(h, 16)); i += 3
        elif c == 'u':
            if i + 1 < len(s) and s[i + 1] == '{':
                j = i + 2
                while j < len(s) and s[j] in HEX: j += 1
                if j - i - 2 > 5: return None     # more than 5 digits: an error here, not specified
                if j >= len(s): return None
                if s[j] != '}' or j == i + 2: return ('Err',)
                ch = cp(int(s[i + 2:j], 16))
                if ch is None: return ('Err',)
                out += ch; i = j + 1
            else:
                h = s[i + 1:i + 5]
                for k in h:
                    if k not in HEX: return ('Err',)
                if len(h) < 4: return None
                ch = cp(int(h, 16))
                if ch is None: return ('Err',)
                out += ch; i += 5
        elif c == '\r' or c in '\u2028\u2029': return None
        else: out += c; i += 1
def num_ref(s, _=None):
    import re
    from strs import WS
    import unicodedata
    m = re.fullmatch(r'#([0-9]+)|#[xX]([0-9a-fA-F]+)', s)
    if not m: return ('Err',)
    n = int(m.group(1)) if m.group(1) else int(m.group(2), 16)
    if n > 0x10FFFF or 0xD800 <= n <= 0xDFFF: return ('Err',)
    if unicodedata.category(chr(n)) == 'Cc' or n in WS: return ('Err',)
    return ('Ok', n)
def stub_ref(x): return ('Err', 0) if 'E' in x else ('Ok', f"<{x}>")
def unescape(s, _=None):
    """Every & starts a reference that ends at the next ;, which comes before the next &."""
    parts = s.split('&'); out = parts[0]
    for p in parts[1:]:
        r, x, rest = p.partition(';')
        if not x: return ('Err',)
        v = stub_ref(r)
        if v[0] == 'Err': return ('Err',)
        out += v[1] + rest
    return ('Ok', out)
TWS = '\t\r\n '
def attribute(s, v):
    """The value of the last attribute of that name of the start tag s begins with, its text unescaped."""
    name = v['name']; st = 'Data'; ret = ('None',); ns = ne = vs = 0; i = 0
    def done(): return ('Ok', ret) if ret in (('None',), ('Some', ('None',))) else ('Err',) if v['unescape_text'](ret[1][1])[0] == 'Err' else ('Ok', ('Some', ('Some', v['unescape_text'](ret[1][1])[1])))
    while i < len(s):
        c = s[i]
        if st == 'Data':
            if c != '<': return ('Err',)
            st = 'TagOpen'
        elif st == 'TagOpen':
            if not (c.isascii() and c.isalpha()): return ('Err',)
            st = 'TagName'
        elif st == 'TagName':
            if c in TWS: st = 'BeforeName'
            elif c == '/': st = 'Self'
            elif c == '>': return done()
            elif c == '\0': return ('Err',)
            elif c == '\f': return None
        elif st == 'Self':
            if c == '>': return done()
            return ('Err',)
        elif st == 'BeforeName':
            if c in TWS: pass
            elif c == '\f': return None
            elif c == '/': st = 'Self'
            elif c == '>': return done()
            elif c == '=': return ('Err',)
            else: st = 'Name'; ns = i; continue
        elif st == 'Name':
            if c in TWS + '/>': ne = i; st = 'AfterName'; continue
            if c == '\f': return None
            if c == '=': ne = i; st = 'BeforeValue'
            elif c in '\0"\'<': return ('Err',)
        elif st == 'AfterName':
            if c in TWS: pass
            elif c == '\f': return None
            elif c == '=': st = 'BeforeValue'
            else:
                if s[ns:ne] == name: ret = ('Some', ('None',))
                if c == '/': st = 'Self'
                elif c == '>': return done()
                else: st = 'Name'; ns = i; continue
        elif st == 'BeforeValue':
            if c in TWS: pass
            elif c == '\f': return None
            elif c == '"': st = 'Double'; vs = i + 1
            elif c == "'": st = 'Single'; vs = i + 1
            elif c == '>': return ('Err',)
            else: st = 'Unquoted'; vs = i; continue
        elif st in ('Double', 'Single'):
            if c == ('"' if st == 'Double' else "'"):
                st = 'AfterValue'
                if s[ns:ne] == name: ret = ('Some', ('Some', s[vs:i]))
            elif c == '\0': return ('Err',)
        elif st == 'Unquoted':
            if c in TWS + '>':
                if s[ns:ne] == name: ret = ('Some', ('Some', s[vs:i]))
                if c == '>': return done()
                st = 'BeforeName'
            elif c == '\0': return ('Err',)
            elif c in '\f"\'<=`': return None      # a parse error in the standard, accepted here
        elif st == 'AfterValue':
            if c in TWS: st = 'BeforeName'
            elif c == '\f': return None
            elif c == '/': st = 'Self'
            elif c == '>': return done()
            else: return ('Err',)
        i += 1
    return ('Err',)
