"""HTTP requests: what is sent and which part of the answer is the value."""
import re
from spec import Err, Any, Ret, Bad, balanced
from specs_misc import split_args
def pairs(x):
    """The entries of a map, however it was filled."""
    if x.startswith('vec[') and x.endswith(']'):
        out = []
        for y in split_args(x[4:-1]):
            a = split_args(y[1:-1]) if y.startswith('(') else []
            if len(a) != 2: return None
            out.append(tuple(a))
        return out
    m = re.match(r"new[\w.]*|vec\[\]|default\(\)|\(default\)", x)
    if not m: return None
    rest = x[m.end():]; out = []
    while rest:
        if not rest.startswith('+{'): return None
        d = 0
        for i, ch in enumerate(rest):
            d += ch in '([{'; d -= ch in ')]}'
            if d == 0 and i: break
        k, _, v = rest[2:i].partition('='); out.append((k, v)); rest = rest[i + 1:]
    return out
def steps(t, typ):
    """[(method, args..)] of a builder chain and what it starts from."""
    out = []
    while True:
        m = re.match(typ + r'::(\w+)\(', t)
        if not m or not t.endswith(')'): return t, out[::-1]
        a = split_args(t[m.end():-1]); out.append((m.group(1),) + tuple(a[1:])); t = a[0]
def MAKE(c):
    cl, url = c.par(lambda: c.try_(c.ev('TaskStateView::http_client', c.state(), 'self.client_config_diff')), lambda: c.try_('Url::parse(%s)' % c.get_str('self.url')))
    t = f"Client::request({cl},self.method,{url})"
    for h in c.iter('self.headers'):
        v = c.get_opt(h + '.1')
        if not c.some(v): continue
        n, x = c.par(lambda: c.try_(c.alias(f"HeaderName::try_from({h}.0)", f"HeaderName::from_str({h}.0)", f"HeaderName::from_bytes({h}.0)")), lambda: c.try_(c.alias(f"HeaderValue::try_from({v}.Some.0)", f"HeaderValue::from_str({v}.Some.0)", f"HeaderValue::from_bytes({v}.Some.0)")))
        t = f"RequestBuilder::header({t},{n},{x})"
    if c.some('self.body'): t = c.try_(c.ev('RequestBody::apply', 'self.body.Some.0', t, c.state()))
    return f"Ok({t})"
def SEND(c):
    r = c.try_(c.ev('RequestConfig::make', 'self', c.state()))
    return f"RequestBuilder::send({r})" if c.ok(f"RequestBuilder::send({r})") else Err(f"RequestBuilder::send({r}).Err.0")
def RESPONSE(c):
    r = c.try_(c.ev('RequestConfig::send', 'self', c.state()))
    h = c.ev('ResponseHandler::handle', 'self.response_handler', r, c.state())
    return f"Ok({h}.Ok.0)" if c.ok(h) else Err(f"{h}.Err.0")
def BODY_TEXT(c): return f"Ok(RequestBuilder::body(req,{c.get_str('self.Text.0')}))"
def BODY_FORM(c):
    want = []
    for e in c.iter('self.Form.0'):
        v = c.get_opt(e + '.1')
        if c.some(v): want.append((e + '.0', v + '.Some.0'))
    def ok(got):
        m = re.fullmatch(r'Ok\(RequestBuilder::form\(req,(.*)\)\)', got, re.S)
        return m is not None and pairs(m.group(1)) is not None and sorted(pairs(m.group(1))) == sorted(want)
    ok.__name__ = f"the form {want}"
    return ok
def BODY_JSON(c):
    j = c.try_(c.ev('StringSourceJsonValue::make', 'self.Json.0', c.state()))
    return f"Ok(RequestBuilder::json(req,{j}))"
REQUEST_BODY = {'Text': BODY_TEXT, 'Form': BODY_FORM, 'Json': BODY_JSON}
def H_BODY(c): return f"Ok({c.try_('Response::text(resp)')})"
def H_HEADER(c):
    n = c.get_str('self.Header.0'); h = f"HeaderMap::get(Response::headers(resp),{n})"
    if not c.some(h): return Err('HeaderNotFound')
    return f"Ok({c.try_(f'HeaderValue::to_str({h}.Some.0)')})"
def H_URL(c): return 'Ok(Response::url(resp))'
def H_COOKIE(c):
    n = c.get_str('self.Cookie.0')
    for k in c.iter('Response::cookies(resp)'):
        if c.eq(f"Cookie::name({k})", n): return f"Ok(Cookie::value({k}))"
    return Err('CookieNotFound')
HANDLER = {'Body': H_BODY, 'Header': H_HEADER, 'Url': H_URL, 'Cookie': H_COOKIE}
def J_NULL(c): return 'Ok(Value::Null)'
def J_BOOL(c): return 'Ok(Value::Bool(self.Bool.0))'
def J_NUMBER(c): return 'Ok(Value::Number(self.Number.0))'
def J_STRING(c): return f"Ok(Value::String({c.get_str('self.String.0')}))"
def J_ARRAY(c):
    out = [c.try_(f'StringSourceJsonValue::make({e},ts)') for e in c.iter('self.Array.0')]
    return [f"Ok(Value::Array(vec[{','.join(out)}]))"]
def J_OBJECT(c):
    want = [(e + '.0', c.try_(f'StringSourceJsonValue::make({e}.1,ts)')) for e in c.iter('self.Object.0')]
    def ok(got):
        m = re.fullmatch(r'Ok\(Value::Object\((.*)\)\)', got, re.S)
        return m is not None and pairs(m.group(1)) is not None and sorted(pairs(m.group(1))) == sorted(want)
    ok.__name__ = f"the object {want}"
    return ok
JSON = {'Null': J_NULL, 'Bool': J_BOOL, 'Number': J_NUMBER, 'String': J_STRING, 'Array': J_ARRAY, 'Object': J_OBJECT}
# ------------------------------------------------------------------ JSON templates as written in a configuration
def FROM_VALUE(c):
    k = c.choose('value', ['Null', 'Bool', 'Number', 'String', 'Array', 'Object']); T = 'StringSourceJsonValue::'
    if k == 'Null': return T + 'Null'
    if k in ('Bool', 'Number'): return f"{T}{k}(value.{k}.0)"
    if k == 'String': return lambda g: re.fullmatch(r"StringSourceJsonValue::String\((StringSource::String\(value\.String\.0\)|StringSource::from\(value\.String\.0\)|value\.String\.0)\)", g) is not None
    es = list(c.iter(f"value.{k}.0"))
    def ok(got):
        m = re.fullmatch(r'StringSourceJsonValue::%s\((.*)\)' % k, got, re.S)
        if not m: return False
        conv = lambda e: 'StringSourceJsonValue::from(%s)' % e
        if k == 'Array': return m.group(1) == 'vec[' + ','.join(map(conv, es)) + ']'
        return pairs(m.group(1)) is not None and sorted(pairs(m.group(1))) == sorted((e + '.0', conv(e + '.1')) for e in es)
    return ok
def visit(kind):
    T = 'Ok(StringSourceJsonValue::'
    def sp(c):
        if kind in ('visit_unit', 'visit_none'): return T + 'Null)'
        if kind == 'visit_bool': return T + 'Bool(x))'
        if kind in ('visit_i64', 'visit_u64'): return lambda g: re.fullmatch(r'Ok\(StringSourceJsonValue::Number\((Number::from\(x\)|x|.*\bx\b.*)\)\)', g) is not None
        if kind == 'visit_f64':
            n = 'Number::from_f64(x)'
            return T + (f"Number({n}.Some.0))" if c.some(n) else 'Null)')
        if kind in ('visit_str', 'visit_string', 'visit_borrowed_str'): return lambda g: re.fullmatch(r'Ok\(StringSourceJsonValue::String\((StringSource::(String|from)\(x\)|x)\)\)', g) is not None
        if kind == 'visit_seq':
            out = []; cur = 'x'
            while len(out) <= c.I.maxlen:
                t = f"SeqAccess::next_element({cur})"; e = c.try_(t)
                if not c.some(e): return T + f"Array(vec[{','.join(out)}]))"
                out.append(e + '.Some.0'); cur = t + '!'
            return Any()
        if kind == 'visit_map': return lambda g: 'MapAccessDeserializer::new(x)' in g and 'StringSourceJsonValue' in g
    return sp
# ------------------------------------------------------------------ proxies
def PROXY(c):
    m = c.choose('self.mode', ['Http', 'Https', 'All']); t = c.try_(f"Proxy::{m.lower()}(self.url)")
    if c.some('self.auth'):
        if c.choose('self.auth.Some.0', ['Basic', 'Custom']) == 'Basic': t = f"Proxy::basic_auth({t},self.auth.Some.0.Basic.username,self.auth.Some.0.Basic.password)"
        else: t = f"Proxy::custom_http_auth({t},self.auth.Some.0.Custom.0)"
    return f"Ok({t})"
